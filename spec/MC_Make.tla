------------------------------- MODULE MC_Make -------------------------------
(* Every way of making block code with the constructors in at most Depth steps: words and arguments added to a
   content, the content finished, blocks made of it without, with one and with two sub stacks, blocks put aside. *)
EXTENDS Make, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES bench, hist

S(o, text, item, ctor, cat, kind) == [op |-> o, text |-> text, item |-> item, ctor |-> ctor, cat |-> cat, opc |-> "op" \o ToString(Len(hist)), kind |-> kind, tn |-> IF kind = "View" THEN "TextView" ELSE ""]
NoItem == ArgItem("s", "", "empty", "", <<>>)
Args == {ArgItem("s", "", "val", "x", <<>>), ArgItem("d", "n", "empty", "", <<>>), ArgItem("b", "", "val", "true", <<>>), ArgItem("m", "l", "blk", "", <<NewBlock(<<TextItem("r")>>, "List", "rep", "String", "", <<>>, <<>>)>>)}
Step(o, b) == hist' = Append(hist, o) /\ bench' = b
AddText == \E w \in {<<"a">>, <<"b", "c">>} : LET s == FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o " " \o y, "", w) IN Step(S("text", s, NoItem, "", "", ""), AddItem(bench, TextOf(s, w)))
AddArg == \E a \in Args : Step(S("arg", "", a, "", "", ""), AddItem(bench, a))
Done == Step(S("content", "", NoItem, "", "", ""), Finish(bench))
MakeOne == \E c \in {"new", "one", "two"}, cat \in {"Control", "Math"}, kind \in {"Regular", "View"} :
             /\ c # "new" => kind = "Regular"
             /\ LET o == S("block", "", NoItem, c, cat, kind) IN Step(o, WithBlock(bench, c, cat, o.opc, kind, o.tn))
Aside == bench.made # <<>> /\ bench.held = <<>> /\ Step(S("hold", "", NoItem, "", "", ""), Hold(bench))
Init == bench = NoBench /\ hist = <<>>
Next == Len(hist) < Depth /\ (AddText \/ AddArg \/ Done \/ MakeOne \/ Aside)
Dump == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)

RECURSIVE Size(_), SizeB(_)
SizeB(b) == 1 + Size(b.ss1) + Size(b.ss2)
Size(g) == FoldLeft(LAMBDA n, b : n + SizeB(b), 0, g)
\* every block that was made is still there, once
Kept == Size(bench.made) + Size(bench.held) = Cardinality({i \in 1 .. Len(hist) : hist[i].op = "block"})
\* a made block keeps its category
Sorted_ == \A i \in 1 .. Len(bench.made) : \E c \in {"Control", "Math"} : bench.made[i].color = Opaque(CodeOf(Categories, c).v)
\* and what was made can be stored and read
Stored_ == LET d == Decode(Encode(bench.made)) IN d.ok /\ Norm(d.v) = Norm(bench.made)
=============================================================================
