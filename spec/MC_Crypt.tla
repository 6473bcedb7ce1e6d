------------------------------- MODULE MC_Crypt ------------------------------
(* The cipher: its table is the AES one, and decrypting undoes encrypting for every length up to MaxLen
   (two patterns of bytes each).  Dumps the texts for replay. *)
EXTENDS Crypt, Json, CSV, IOUtils
CONSTANT MaxLen
VARIABLE d
Texts(n) == {[i \in 1 .. n |-> 0], [i \in 1 .. n |-> (i * 37 + n * 11) % 256], [i \in 1 .. n |-> 16]}
Init == d \in UNION {Texts(n) : n \in 0 .. MaxLen}
Next == FALSE /\ d' = d
Dump == CSVWrite("%1$s", <<ToJson([data |-> d, enc |-> Encrypt(d)])>>, IOEnv.DUMP)
Undone == Decrypt(Encrypt(d)) = Ok(d)
Blocks == Len(Encrypt(d)) = Len(d) + PadLen(Len(d))
\* half a block is never a cipher text
Whole == ~Decrypt(SubSeq(Encrypt(d), 1, Len(Encrypt(d)) - 1)).ok
ASSUME SBoxIsAES
=============================================================================
