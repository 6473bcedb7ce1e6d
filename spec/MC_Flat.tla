------------------------------- MODULE MC_Flat -------------------------------
(* Every list of at most Rows stored blocks whose pointers (next, one of the sub stacks, one block
   argument) go anywhere, dangling and cyclic ones included.  Checks that the reader's meaning is
   exact, and dumps each list for replay. *)
EXTENDS Refusal, Json, CSV, IOUtils
CONSTANT Rows
VARIABLE q

Targets == -1 .. Rows      \* ids run from 0 to Rows - 1, Rows is nobody
Row(i, nx, how, to) ==
  [color |-> "0", id |-> ToString(i), idn |-> i, idok |-> "1", next |-> nx, op |-> "op" \o ToString(i),
   params |-> IF how = "arg" THEN <<RefParam(to)>> ELSE <<>>, spec |-> IF how = "arg" THEN "a %s" ELSE "a", words |-> IF how = "arg" THEN <<"a", "%s">> ELSE <<"a">>,
   ss1 |-> IF how = "ss1" THEN to ELSE -1, ss2 |-> IF how = "ss2" THEN to ELSE -1,
   type |-> IF how = "arg" THEN "s" ELSE IF how = "ss2" THEN "e" ELSE IF how = "ss1" THEN "c" ELSE " ", tn |-> ""]
RowsOf(i) == {Row(i, nx, "", -1) : nx \in Targets} \cup {Row(i, nx, how, to) : nx \in Targets, how \in {"ss1", "ss2", "arg"}, to \in 0 .. Rows}

\* rows come in descending id order, so that the first block is not the one with the lowest id
Init == q = <<>>
Next == Len(q) < Rows /\ \E r \in RowsOf(Rows - 1 - Len(q)) : q' = Append(q, r)
Slim(r) == [color |-> r.color, id |-> r.id, next |-> r.next, op |-> r.op, params |-> [i \in 1 .. Len(r.params) |-> [s |-> r.params[i].s]], spec |-> r.spec, ss1 |-> r.ss1, ss2 |-> r.ss2, type |-> r.type, tn |-> r.tn]
Dump == CSVWrite("%1$s", <<ToJson([i \in 1 .. Len(q) |-> Slim(q[i])])>>, IOEnv.DUMP)
RECURSIVE Size(_), SizeB(_)
SizeB(b) == 1 + Size(b.ss1) + Size(b.ss2) + FoldLeft(LAMBDA n, it : n + IF it.vk = "blk" THEN SizeB(it.b[1]) ELSE 0, 0, b.items)
Size(g) == FoldLeft(LAMBDA n, b : n + SizeB(b), 0, g)
Exact ==
  LET d == Decode(q)  ids == {q[i].idn : i \in 1 .. Len(q)} IN
  /\ WellFormed(q) => d.ok /\ Size(d.v) = Len(q)
  /\ (d.ok /\ q # <<>> /\ LoneArgs(q)) =>
       /\ Reach(q, {q[1].idn}) \subseteq ids                        \* nothing dangles
       /\ Size(d.v) = Cardinality(Reach(q, {q[1].idn}))             \* each block exactly once
  /\ d.ok => Norm(Decode(Encode(d.v)).v) = Norm(d.v)
  /\ d.ok => Size(d.v) <= Len(q)
\* what does not decode has something in it that can be pointed at, a well formed list has not
Pointed == LET F == FlatFault(q) IN (~Decode(q).ok => F # {}) /\ (WellFormed(q) => F = {})
=============================================================================
