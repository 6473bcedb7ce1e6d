-------------------------------- MODULE Crypt --------------------------------
(* The encryption of the data files: AES-128 in CBC mode with PKCS#7 padding, key and initial
   vector both the bytes of "sketchwaresecure".  Bytes are 0..255, texts are sequences of bytes. *)
EXTENDS Base, Bitwise

Key == <<115, 107, 101, 116, 99, 104, 119, 97, 114, 101, 115, 101, 99, 117, 114, 101>>
IV  == Key

XTime(a) == IF a >= 128 THEN ((a * 2) % 256) ^^ 27 ELSE a * 2
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
SBoxSeq == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
  183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
  9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
  208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
  205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
  224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
  186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
  225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
SBox == [x \in 0 .. 255 |-> SBoxSeq[x + 1]]
InvSBox == [y \in 0 .. 255 |-> CHOOSE x \in 0 .. 255 : SBox[x] = y]
\* the table is the affine transform of the inverse in GF(2^8)
Rotl(x, n) == ((x * (2 ^ n)) % 256) + (x \div (2 ^ (8 - n)))
Affine(i) == ((((i ^^ Rotl(i, 1)) ^^ Rotl(i, 2)) ^^ Rotl(i, 3)) ^^ Rotl(i, 4)) ^^ 99
SBoxIsAES == /\ SBox[0] = 99
             /\ \A x \in 1 .. 255 : \E i \in 1 .. 255 : GMul(x, i) = 1 /\ SBox[x] = Affine(i)
Mul == [n \in {2, 3, 9, 11, 13, 14} |-> [x \in 0 .. 255 |-> GMul(x, n)]]

XorSeq(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] ^^ b[i]])   \* TLCEval: functions are evaluated lazily otherwise
\* key schedule: 44 words
Words == LET Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
             W0 == [i \in 1 .. 4 |-> SubSeq(Key, 4 * i - 3, 4 * i)]
             RECURSIVE go(_)
             go(w) == IF Len(w) = 44 THEN w ELSE
               LET n == Len(w)  l == w[n]
                   t == IF n % 4 = 0 THEN <<SBox[l[2]] ^^ Rcon[n \div 4], SBox[l[3]], SBox[l[4]], SBox[l[1]]>> ELSE l
               IN go(Append(w, XorSeq(w[n - 3], t)))
         IN go(W0)
RoundKey == [r \in 0 .. 10 |-> Words[4 * r + 1] \o Words[4 * r + 2] \o Words[4 * r + 3] \o Words[4 * r + 4]]

\* the state is kept as 16 bytes, column by column
ShiftFrom == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
SubShift(s) == TLCEval([i \in 1 .. 16 |-> SBox[s[ShiftFrom[i]]]])
UnFrom == [i \in 1 .. 16 |-> CHOOSE k \in 1 .. 16 : ShiftFrom[k] = i]
UnSubShift(s) == TLCEval([i \in 1 .. 16 |-> InvSBox[s[UnFrom[i]]]])
Mix(s, a, b, c, d) ==
  TLCEval([i \in 1 .. 16 |-> LET c0 == ((i - 1) \div 4) * 4  r == (i - 1) % 4
                         At4(k) == s[c0 + ((r + k) % 4) + 1]
                         M(n, x) == IF n = 1 THEN x ELSE Mul[n][x]
                     IN ((M(a, At4(0)) ^^ M(b, At4(1))) ^^ M(c, At4(2))) ^^ M(d, At4(3))])
RECURSIVE EncRounds(_, _), DecRounds(_, _)
EncRounds(s, r) == IF r = 10 THEN XorSeq(SubShift(s), RoundKey[10]) ELSE EncRounds(XorSeq(Mix(SubShift(s), 2, 3, 1, 1), RoundKey[r]), r + 1)
EncBlock(b) == EncRounds(XorSeq(b, RoundKey[0]), 1)
DecRounds(s, r) == IF r = 0 THEN XorSeq(UnSubShift(s), RoundKey[0]) ELSE DecRounds(Mix(XorSeq(UnSubShift(s), RoundKey[r]), 14, 11, 13, 9), r - 1)
DecBlock16(b) == DecRounds(XorSeq(b, RoundKey[10]), 9)

PadLen(n) == 16 - (n % 16)
Padded(d) == d \o [i \in 1 .. PadLen(Len(d)) |-> PadLen(Len(d))]
RECURSIVE CbcEnc(_, _), CbcDec(_, _)
CbcEnc(d, prev) == IF d = <<>> THEN <<>> ELSE LET c == EncBlock(XorSeq(SubSeq(d, 1, 16), prev)) IN c \o CbcEnc(SubSeq(d, 17, Len(d)), c)
CbcDec(d, prev) == IF d = <<>> THEN <<>> ELSE LET c == SubSeq(d, 1, 16) IN XorSeq(DecBlock16(c), prev) \o CbcDec(SubSeq(d, 17, Len(d)), c)
Encrypt(d) == CbcEnc(Padded(d), IV)
\* refused: not a positive number of whole blocks, or padding that is not PKCS#7
Decrypt(d) ==
  IF Len(d) = 0 \/ Len(d) % 16 # 0 THEN Bad
  ELSE LET p == CbcDec(d, IV)  n == p[Len(p)]
       IN IF n \in 1 .. 16 /\ \A i \in (Len(p) - n + 1) .. Len(p) : p[i] = n THEN Ok(SubSeq(p, 1, Len(p) - n)) ELSE Bad
=============================================================================
