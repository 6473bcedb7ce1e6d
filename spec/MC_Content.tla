----------------------------- MODULE MC_Content ------------------------------
(* Every history of at most Depth operations on a block's content, over short specs and short lists of
   arguments, fitting and misfitting.  Dumps each history for replay. *)
EXTENDS BlockCode, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES content, hist

Words == {"a", "%s", "%d.n", "%b", "%m.l", "%x"}
Specs == UNION {[1 .. n -> Words] : n \in 0 .. 2}
Param(s) == CASE s = "@5" -> RefParam(5) [] s = "1.5" -> NumParam(s) [] s = "@x" -> [PlainParam(s) EXCEPT !.rk = "bad"] [] OTHER -> PlainParam(s)
Params == {Param(s) : s \in {"", "x", "@5", "1.5", "true"}}
Lists_ == UNION {[1 .. n -> Params] : n \in 0 .. 2} \cup {<<Param("@x")>>}
Rep == [op |-> "join", color |-> "-1", kind |-> "String", tn |-> "", items |-> <<TextItem("join")>>, ss1 |-> <<>>, ss2 |-> <<>>]
Lit(w) == [Rep EXCEPT !.op = w, !.color = "-10701022", !.kind = "Boolean", !.items = <<TextItem(w)>>]
Haves == {<<>>, <<[id |-> "5", b |-> Rep]>>, <<[id |-> "7", b |-> Rep], [id |-> "5", b |-> Lit("true")]>>, <<[id |-> "5", b |-> Lit("false")]>>}
Args == {ArgItem("s", "", "val", "v", <<>>), ArgItem("d", "q", "empty", "", <<>>), ArgItem("m", "l", "ph", "5", <<>>), ArgItem("b", "", "blk", "", <<Rep>>)}

Op(o, words, params, have, i, item) == [op |-> o, words |-> words, params |-> [n \in 1 .. Len(params) |-> params[n].s], have |-> have, i |-> i, item |-> item]
None == ArgItem("s", "", "empty", "", <<>>)
\* a refused operation leaves the content as it is
Do(o, r) == hist' = Append(hist, o) /\ content' = IF r.ok THEN r.v ELSE content
Parse == \E w \in Specs, p \in Lists_ : Do(Op("parse", w, p, <<>>, 0, None), ParseItems(w, 1, p, TRUE))
ParseWo == \E w \in Specs : Do(Op("parse_wo", w, <<>>, <<>>, 0, None), ParseItems(w, 1, <<>>, FALSE))
Apply == \E p \in Lists_ : Do(Op("apply", <<>>, p, <<>>, 0, None), ApplyArgs(content, p))
Fill == \E h \in Haves : Do(Op("blocks", <<>>, <<>>, h, 0, None), ApplyBlocks(content, h))
Set_ == \E i \in 1 .. Len(ArgsOf(content)) + 1, a \in Args :
          Do(Op("set", <<>>, <<>>, <<>>, i, a), IF i > Len(ArgsOf(content)) THEN Bad ELSE Ok(SetArg(content, i, a)))
Take == Do(Op("take", <<>>, <<>>, <<>>, 0, None), Ok(Emptied(content)))
Init == content = <<>> /\ hist = <<>>
\* a history starts with a content
Next == Len(hist) < Depth /\ IF hist = <<>> THEN Parse \/ ParseWo ELSE Apply \/ Fill \/ Set_ \/ Take
Dump == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)

\* rendering gives the spec back: reading it again gives the same content without its arguments
Rendered == ParseItems(WordsOf(content), 1, <<>>, FALSE) = Ok(IF content = <<>> THEN <<TextItem("")>> ELSE Emptied(content))
Count == Len(ArgsOf(content)) = ParamsIn(WordsOf(content))
\* reading a spec with its arguments is reading it without and applying them
ASSUME \A w \in Specs, p \in Lists_ : LET e == ParseItems(w, 1, <<>>, FALSE) IN
         ParseItems(w, 1, p, TRUE) = IF e.ok THEN ApplyArgs(e.v, p) ELSE Bad
\* what is taken out can be put back
Back == LET a == ArgsOf(content) IN
          \A n \in 1 .. Len(a) : ArgsOf(SetArg(Emptied(content), n, a[n]))[n] = a[n] /\ \A k \in 1 .. Len(a) : k # n => ArgsOf(SetArg(content, n, a[n]))[k] = a[k]
\* no placeholder is left when all blocks are there
Resolved == LET r == ApplyBlocks(content, <<[id |-> "5", b |-> Rep]>>) IN r.ok /\ \A i \in 1 .. Len(r.v) : r.v[i].vk # "ph"
=============================================================================
