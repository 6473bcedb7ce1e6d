-------------------------------- MODULE Base --------------------------------
(* Strings, decimal numbers and small sequence helpers shared by every module. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ok(v) == [ok |-> TRUE, v |-> v]
Bad   == [ok |-> FALSE, v |-> <<>>]

Ch(s, i)   == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
IndexOf(s, p) ==   \* first position of p in s, 0 when there is none
  LET hits == {i \in 1 .. (Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A k \in hits : i <= k

Upper == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"} |->
  CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "g" -> "G"
    [] c = "h" -> "H" [] c = "i" -> "I" [] c = "j" -> "J" [] c = "k" -> "K" [] c = "l" -> "L" [] c = "m" -> "M" [] c = "n" -> "N"
    [] c = "o" -> "O" [] c = "p" -> "P" [] c = "q" -> "Q" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T" [] c = "u" -> "U"
    [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X" [] c = "y" -> "Y" [] c = "z" -> "Z"]
UpperCh(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c

DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits   == {DigitSeq[i] : i \in 1 .. 10}
DigitVal == [c \in Digits |-> (CHOOSE i \in 1 .. 10 : DigitSeq[i] = c) - 1]
IsDigits(s) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : Ch(s, i) \in Digits

RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
ToInt(s) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN 0 - ToNat(SubSeq(s, 2, Len(s))) ELSE ToNat(s)

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s

\* a <= b for canonical (no leading zeros) digit strings of any length
RECURSIVE DigLE(_, _)
DigLE(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = "" THEN TRUE
  ELSE LET x == DigitVal[Ch(a, 1)]  y == DigitVal[Ch(b, 1)]
       IN IF x # y THEN x < y ELSE DigLE(From(a, 2), From(b, 2))

\* a canonical decimal integer "-12" | "0" | "34" lies within [-neg, pos] (bounds given as digit strings)
InBounds(s, neg, pos) ==
  IF StartsWith(s, "-") THEN DigLE(From(s, 2), neg) ELSE DigLE(s, pos)

Pad(s, n) == IF Len(s) >= n THEN s ELSE
  CASE n - Len(s) = 1 -> "0" \o s [] n - Len(s) = 2 -> "00" \o s [] n - Len(s) = 3 -> "000" \o s [] OTHER -> "0000" \o s

\* ids run to 2^32 - 1, the integers of TLC to 2^31 - 1: the upper half is carried as the negative numbers
IdText(n) == IF n >= 0 THEN ToString(n) ELSE
  LET hi == n \div 100000  lo == (n % 100000) + 67296 IN ToString(42949 + hi + (lo \div 100000)) \o Pad(ToString(lo % 100000), 5)
Elems(q) == {q[i] : i \in 1 .. Len(q)}
NoDup(q) == \A i, k \in 1 .. Len(q) : q[i] = q[k] => i = k
\* TLC builds functions lazily; TLCEval makes sure the work is done once
Map(q, Op(_)) == TLCEval([i \in 1 .. Len(q) |-> Op(q[i])])
Flat(q) == FlattenSeq(TLCEval(q))
\* look-up in a sequence of records by a key field
Hits(q, Key(_), x) == {i \in 1 .. Len(q) : Key(q[i]) = x}
Has(f, k) == k \in DOMAIN f
\* the records of q as a set: order carries no meaning
AsSet(q) == {q[i] : i \in 1 .. Len(q)}
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
=============================================================================
