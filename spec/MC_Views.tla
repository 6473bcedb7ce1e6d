------------------------------- MODULE MC_Views ------------------------------
(* Every history of at most Depth edits of a view tree (add, remove, move, change of kind).
   The templates are whole views read from a file.  Checks that the flat list the writer makes holds
   the tree, and dumps each history for replay. *)
EXTENDS ViewTree, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES tree, hist

Views == ndJsonDeserialize(IOEnv.TEMPLATES)
Kinds3 == {1, 2}
V(n, id) == [Views[n] EXCEPT !.id = id, !.raw = [@ EXCEPT !["id"] = id]]
Name(n) == "v" \o ToString(n)
\* an id is used up when it is added
Adds == Len(SelectSeq(hist, LAMBDA h : h.op = "add"))
RECURSIVE Below(_, _)
Below(t, id) == LET v == FindIn(t, id) IN IF v = <<>> THEN {} ELSE {v[1].id} \cup Elems(Ids(v[1].kids))
Ids_(t) == Elems(Ids(t))
KidsOf(t, p) == IF p = "" THEN t ELSE FindIn(t, p)[1].kids
Do(op, t) == tree' = t /\ hist' = Append(hist, op)
Add == \E p \in {""} \cup Ids_(tree), n \in Kinds3 : \E pos \in 0 .. Len(KidsOf(tree, p)) :
         LET id == Name(Adds + 1) IN Do([op |-> "add", parent |-> p, pos |-> pos, n |-> n, id |-> id], EditAdd(tree, p, pos, V(n, id)))
Del == \E id \in Ids_(tree) : Do([op |-> "del", parent |-> "", pos |-> 0, n |-> 0, id |-> id], EditDel(tree, id))
Move == \E id \in Ids_(tree) : LET rest == EditDel(tree, id) IN \E p \in {""} \cup Ids_(rest) : \E pos \in 0 .. Len(KidsOf(rest, p)) :
          Do([op |-> "move", parent |-> p, pos |-> pos, n |-> 0, id |-> id], EditMove(tree, id, p, pos))
Kind == \E id \in Ids_(tree) : Do([op |-> "kind", parent |-> "", pos |-> 0, n |-> 3, id |-> id], EditSet(tree, id, [kind |-> Views[3].kind, pt |-> "77"]))
Init == tree = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ (Add \/ Del \/ Move \/ Kind)
Dump == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)
Faithful_ == Faithful(Flatten(tree, "root", "0"), tree)
\* reading what was stored gives the stored form of the tree
Back == LET r == Rebuild(Flatten(tree, "root", "0")) IN r.ok /\ r.v = Stored(tree, "root", "0")
\* storing twice is storing once
Stable == Stored(Stored(tree, "root", "0"), "root", "0") = Stored(tree, "root", "0")
\* a tree keeps one place per view
OnePlace == NoDup(Ids(tree))
=============================================================================
