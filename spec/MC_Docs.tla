------------------------------- MODULE MC_Docs -------------------------------
(* Every sequence of at most Depth lines over an alphabet of lines per data file, good and bad ones.
   Checks that what can be read can be written and read again, and dumps each sequence for replay. *)
EXTENDS Refusal, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES kind, q

\* one record per line: [kind, n (symbol index), line (token)]
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
Syms(k) == {i \in 1 .. Len(Alphabet) : Alphabet[i].kind = k}
Lines == [i \in 1 .. Len(q) |-> Alphabet[q[i]].line]
\* a text that ends in a newline has an empty last line
Text == IF kind \in Singles THEN Lines ELSE Lines \o <<BlankLine>>
Init == kind \in {Alphabet[i].kind : i \in 1 .. Len(Alphabet)} /\ q = <<>>
Next == Len(q) < Depth /\ kind' = kind /\ \E s \in Syms(kind) : q' = Append(q, s)
Dump == CSVWrite("%1$s", <<ToJson([kind |-> kind, q |-> q])>>, IOEnv.DUMP)
Total == Read(kind, Lines).st \in {"ok", "may", "err", "any"}
\* reading, writing and reading again changes nothing; writing is a fixed point
RoundTrips == LET r == Read(kind, Text) IN r.st = "ok" => LET w == Read(kind, Write(kind, r.v)) IN w.st = "ok" /\ SameModel(kind, w.v, r.v)
\* blank lines at the end never change the meaning
Trailing == LET a == Read(kind, Text)  b == Read(kind, Append(Text, BlankLine)) IN kind \in Singles \cup {"project"} \/ (a.st = b.st /\ (a.st \in {"ok", "may"} => a.v = b.v))
\* nothing is read that is not there: every entry of the model has a line of its own
Entries(m) ==
  CASE kind = "file" -> Len(m.activities) + Len(m.customViews) [] kind = "resource" -> Len(m.images) + Len(m.sounds) + Len(m.fonts)
    [] kind = "view" -> Len(m.fabs) + FoldLeft(LAMBDA n, l : n + Len(l.views), 0, m.layouts)
    [] kind = "logic" -> FoldLeft(LAMBDA n, s : n + Len(s.vars.l) + Len(s.lists.l) + Len(s.comps.l) + Len(s.events.l) + Len(s.mbs.l) + FoldLeft(LAMBDA x, c : x + Len(c.flat), 0, s.conts), 0, m.screens)
    [] OTHER -> 0
Heads == Len(SelectSeq(Lines, LAMBDA t : t.k \in {"head", "blank"}))
NothingLost == LET r == Read(kind, Lines) IN (r.st = "ok" /\ kind \in {"file", "resource", "view", "logic"}) => Entries(r.v) = Len(Lines) - Heads
\* what is refused is refused for something that can be pointed at, and nothing can be pointed at in a sound text
Pointed == Read(kind, Text).st = "err" => DocFault(kind, Text) # {}
=============================================================================
