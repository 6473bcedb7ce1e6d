------------------------------ MODULE MC_Block ------------------------------
(* Every program of at most MaxBlocks blocks over a few block shapes, grown block by block.
   Checks the writer's design against the reader's meaning, and dumps each program for replay. *)
EXTENDS BlockCode, Json, CSV, IOUtils
CONSTANT MaxBlocks
VARIABLE f

T(w) == TextItem(w)
E(k) == ArgItem(k, IF k = "m" THEN "list" ELSE "", "empty", "", <<>>)
V(k, v) == ArgItem(k, IF k = "m" THEN "list" ELSE "", "val", v, <<>>)
B(op, kind, items) == [op |-> op, color |-> "-10701022", kind |-> kind, tn |-> IF kind = "View" THEN "TextView" ELSE "", items |-> items, ss1 |-> <<>>, ss2 |-> <<>>]
Stacks == {B("setVar", "Regular", <<T("set"), E("s"), T("to"), E("d")>>), B("forever", "OneNest", <<T("loop")>>),
           B("ifElse", "TwoNest", <<T("if"), E("b")>>), B("finish", "Ending", <<V("b", "true"), V("m", "x")>>)}
Reporters == [s |-> {B("join", "String", <<E("s"), T("+"), V("s", "y z")>>)}, d |-> {B("plus", "Number", <<E("d"), V("d", "1.5")>>)},
              b |-> {B("not", "Boolean", <<E("b")>>)}, m |-> {}]
RECURSIVE GrowF(_), GrowB(_)
GrowF(g) == {Append(g, b) : b \in Stacks} \cup UNION {{[g EXCEPT ![i] = b] : b \in GrowB(g[i])} : i \in 1 .. Len(g)}
GrowB(b) ==
  (IF b.kind \in {"OneNest", "TwoNest"} THEN {[b EXCEPT !.ss1 = x] : x \in GrowF(b.ss1)} ELSE {})
  \cup (IF b.kind = "TwoNest" THEN {[b EXCEPT !.ss2 = x] : x \in GrowF(b.ss2)} ELSE {})
  \cup UNION {IF b.items[i].vk = "empty" THEN {[b EXCEPT !.items[i] = ArgItem(@.k, @.nm, "blk", "", <<r>>)] : r \in Reporters[b.items[i].k]}
              ELSE IF b.items[i].vk = "blk" THEN {[b EXCEPT !.items[i].b = <<r>>] : r \in GrowB(b.items[i].b[1])} ELSE {} : i \in 1 .. Len(b.items)}
RECURSIVE Size(_), SizeB(_)
SizeB(b) == 1 + Size(b.ss1) + Size(b.ss2) + FoldLeft(LAMBDA n, it : n + IF it.vk = "blk" THEN SizeB(it.b[1]) ELSE 0, 0, b.items)
Size(g) == FoldLeft(LAMBDA n, b : n + SizeB(b), 0, g)

Init == f = <<>>
Next == Size(f) < MaxBlocks /\ f' \in GrowF(f)
Dump == CSVWrite("%1$s", <<ToJson(f)>>, IOEnv.DUMP)
\* the stored form is well formed and means the same program
RoundTrips == LET e == Encode(f)  d == Decode(e) IN WellFormed(e) /\ d.ok /\ Norm(d.v) = Norm(f)
\* every block of the program is stored once; literals take a block of their own
RECURSIVE Lits(_), LitsB(_)
LitsB(b) == Lits(b.ss1) + Lits(b.ss2) + FoldLeft(LAMBDA n, it : n + (IF it.vk = "blk" THEN LitsB(it.b[1]) ELSE IF it.k = "b" /\ it.vk = "val" THEN 1 ELSE 0), 0, b.items)
Lits(g) == FoldLeft(LAMBDA n, b : n + LitsB(b), 0, g)
Complete == Len(Encode(f)) = Size(f) + Lits(f)
\* a dropped block is noticed: what is left is not well formed
Tight == LET e == Encode(f) IN \A i \in 2 .. Len(e) : ~WellFormed(SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))) /\ ~Decode(SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))).ok
=============================================================================
