------------------------------ MODULE BlockCode ------------------------------
(* Block code.  A *flat* list is what a data file stores: blocks with ids that point at each
   other (next block, two sub stacks, "@id" parameters).  A *forest* is the program it encodes.
     flat block : [color, id, idn, idok, next, op, params, spec, words, ss1, ss2, type, tn]
     parameter  : [s, n, num, r, rk]      (text; value as a number; "1" when it is one; referenced id; no|ref|bad)
     block      : [op, color, kind, tn, items, ss1, ss2]
     item       : [k, nm, vk, v, w, b]    k: text|s|d|b|m   vk: text|val|blk|ph|empty *)
EXTENDS Codes

TextItem(word) == [k |-> "text", nm |-> "", vk |-> "text", v |-> word, w |-> <<word>>, b |-> <<>>]
ArgItem(k, nm, vk, v, b) == [k |-> k, nm |-> nm, vk |-> vk, v |-> v, w |-> <<>>, b |-> b]

(* ---------------------------------------------------------------- spec words *)
IsParam(w) == Len(w) >= 2 /\ Ch(w, 1) = "%"
ParamKind(w) == Ch(w, 2)
ParamName(w) == IF Len(w) > 3 /\ Ch(w, 3) = "." THEN From(w, 4) ELSE ""
\* words the format defines: %s %d %b with or without a name, %m with one
GoodParam(w) == ParamKind(w) \in {"s", "d", "b"} \/ (ParamKind(w) = "m" /\ ParamName(w) # "")
ParamsIn(words) == Len(SelectSeq(words, IsParam))
\* the meaning of one argument text, references left as placeholders
ReadArg(k, nm, p) ==
  IF p.rk = "bad" THEN Bad
  ELSE IF p.rk = "ref" THEN Ok(ArgItem(k, nm, "ph", IdText(p.r), <<>>))
  ELSE CASE k \in {"s", "m"} -> Ok(ArgItem(k, nm, "val", p.s, <<>>))
         [] k = "d" -> IF p.s = "" THEN Ok(ArgItem(k, nm, "empty", "", <<>>))
                       ELSE IF p.num = "1" THEN Ok(ArgItem(k, nm, "val", p.n, <<>>)) ELSE Bad
         [] k = "b" -> IF p.s = "" THEN Ok(ArgItem(k, nm, "empty", "", <<>>))
                       ELSE IF p.s \in {"true", "false"} THEN Ok(ArgItem(k, nm, "val", p.s, <<>>)) ELSE Bad

\* a boolean literal is stored as a block named after it
BoolLit(b) == b.op \in {"true", "false"}
Plug(it, b) == IF it.k = "b" /\ BoolLit(b) THEN ArgItem("b", it.nm, "val", b.op, <<>>) ELSE ArgItem(it.k, it.nm, "blk", "", <<b>>)

(* ---------------------------------------------------------------- reading *)
Fail == [ok |-> FALSE, v |-> <<>>, av |-> {}]
Got(v, av) == [ok |-> TRUE, v |-> v, av |-> av]

RECURSIVE DecBlock(_, _, _), DecChain(_, _, _), DecItems(_, _, _, _, _)
\* av: ids not yet used; every block belongs to exactly one place
DecItems(words, i, params, m, av) ==
  IF i > Len(words) THEN Got(<<>>, av)
  ELSE IF ~IsParam(words[i]) THEN
    LET r == DecItems(words, i + 1, params, m, av) IN IF r.ok THEN Got(<<TextItem(words[i])>> \o r.v, r.av) ELSE Fail
  ELSE IF ~GoodParam(words[i]) \/ params = <<>> THEN Fail
  ELSE LET k == ParamKind(words[i])  nm == ParamName(words[i])  p == Head(params)
           a == ReadArg(k, nm, p)
       IN IF ~a.ok THEN Fail
          ELSE IF p.rk = "ref" THEN
            LET b == DecBlock(p.r, m, av) IN IF ~b.ok THEN Fail ELSE
            LET r == DecItems(words, i + 1, Tail(params), m, b.av) IN IF r.ok THEN Got(<<Plug(a.v, b.v)>> \o r.v, r.av) ELSE Fail
          ELSE LET r == DecItems(words, i + 1, Tail(params), m, av) IN IF r.ok THEN Got(<<a.v>> \o r.v, r.av) ELSE Fail

DecBlock(id, m, av) ==
  IF id \notin av THEN Fail ELSE
  LET f == m[id]  a0 == av \ {id}
      s1 == IF f.ss1 < 0 THEN Got(<<>>, a0) ELSE DecChain(f.ss1, m, a0)
  IN IF ~s1.ok THEN Fail ELSE
  LET s2 == IF f.ss2 < 0 THEN Got(<<>>, s1.av) ELSE DecChain(f.ss2, m, s1.av)
  IN IF ~s2.ok THEN Fail ELSE
  LET it == DecItems(f.words, 1, f.params, m, s2.av)
      kd == BlockKind(f.type, f.tn)
  IN IF ~it.ok \/ ~kd.ok THEN Fail
     ELSE Got([op |-> f.op, color |-> f.color, kind |-> kd.v, tn |-> IF kd.v \in TypedKinds THEN f.tn ELSE "",
               items |-> it.v, ss1 |-> s1.v, ss2 |-> s2.v], it.av)

DecChain(id, m, av) ==
  LET b == DecBlock(id, m, av) IN
  IF ~b.ok THEN Fail
  ELSE IF m[id].next < 0 THEN Got(<<b.v>>, b.av)
  ELSE LET r == DecChain(m[id].next, m, b.av) IN IF r.ok THEN Got(<<b.v>> \o r.v, r.av) ELSE Fail

Decode(flat) ==
  IF \E i \in 1 .. Len(flat) : flat[i].idok # "1" THEN Bad
  ELSE IF flat = <<>> THEN Ok(<<>>)
  ELSE LET ids == {flat[i].idn : i \in 1 .. Len(flat)}
           m == [x \in ids |-> flat[CHOOSE i \in 1 .. Len(flat) : flat[i].idn = x]]
           r == DecChain(flat[1].idn, m, ids)
       IN IF r.ok THEN Ok(r.v) ELSE Bad

(* ---------------------------------------------------------------- what a reader can tell apart *)
RECURSIVE Norm(_), NormBlock(_), NormItems(_)
NormItem(it) ==
  IF it.k = "text" THEN TLCEval([i \in 1 .. Len(it.w) |-> TextItem(it.w[i])])
  ELSE IF it.vk = "empty" /\ it.k \in {"s", "m"} THEN <<ArgItem(it.k, it.nm, "val", "", <<>>)>>
  ELSE IF it.vk = "blk" THEN
    IF it.k = "b" /\ BoolLit(it.b[1]) THEN <<ArgItem("b", it.nm, "val", it.b[1].op, <<>>)>>
    ELSE <<ArgItem(it.k, it.nm, "blk", "", <<NormBlock(it.b[1])>>)>>
  ELSE <<ArgItem(it.k, it.nm, it.vk, it.v, <<>>)>>
NormItems(items) == IF items = <<>> THEN <<TextItem("")>> ELSE Flat([i \in 1 .. Len(items) |-> NormItem(items[i])])
NormBlock(b) == [op |-> b.op, color |-> b.color, kind |-> b.kind, tn |-> IF b.kind \in TypedKinds THEN b.tn ELSE "",
                 items |-> NormItems(b.items), ss1 |-> Norm(b.ss1), ss2 |-> Norm(b.ss2)]
Norm(forest) == TLCEval([i \in 1 .. Len(forest) |-> NormBlock(forest[i])])

\* a boolean literal that is shown as the block it is stored as
RECURSIVE LitBlocks(_), LitBlock(_)
LitBlock(b) == LitBlocks(b.ss1) \/ LitBlocks(b.ss2) \/ \E i \in 1 .. Len(b.items) : b.items[i].vk = "blk" /\ ((b.items[i].k = "b" /\ BoolLit(b.items[i].b[1])) \/ LitBlock(b.items[i].b[1]))
LitBlocks(forest) == \E i \in 1 .. Len(forest) : LitBlock(forest[i])

(* ---------------------------------------------------------------- a well-formed flat list *)
Refs(f) == (IF f.next >= 0 THEN <<f.next>> ELSE <<>>) \o (IF f.ss1 >= 0 THEN <<f.ss1>> ELSE <<>>) \o (IF f.ss2 >= 0 THEN <<f.ss2>> ELSE <<>>)
           \o Flat([i \in 1 .. Len(f.params) |-> IF f.params[i].rk = "ref" THEN <<f.params[i].r>> ELSE <<>>])
\* ids met from S on, following every pointer
RECURSIVE Reach(_, _)
Reach(flat, S) == LET n == S \cup UNION {Elems(Refs(flat[i])) : i \in {k \in 1 .. Len(flat) : flat[k].idn \in S}} IN IF n = S THEN S ELSE Reach(flat, n)
\* a block used as an argument stands alone: a pointer to a next block has no meaning there
ArgIds(flat) == UNION {{flat[i].params[p].r : p \in {x \in 1 .. Len(flat[i].params) : flat[i].params[x].rk = "ref"}} : i \in 1 .. Len(flat)}
LoneArgs(flat) == \A i \in 1 .. Len(flat) : flat[i].idn \in ArgIds(flat) => flat[i].next < 0
WellFormed(flat) ==
  LET ids == [i \in 1 .. Len(flat) |-> flat[i].idn]
      refs == Flat([i \in 1 .. Len(flat) |-> Refs(flat[i])])
  IN /\ \A i \in 1 .. Len(flat) : flat[i].idok = "1"
     /\ NoDup(ids)
     /\ NoDup(refs)                                   \* nothing is shared
     /\ flat # <<>> => Elems(refs) = Elems(ids) \ {ids[1]}  \* the first block starts the program, the rest is referenced once, nothing dangles
     /\ LoneArgs(flat)
     /\ flat # <<>> => Reach(flat, {ids[1]}) = Elems(ids)     \* no loop on its own
     /\ \A i \in 1 .. Len(flat) : Len(flat[i].params) = ParamsIn(flat[i].words)

(* ---------------------------------------------------------------- the writer's design *)
RECURSIVE Enc(_, _), EncChain(_, _), EncArgs(_, _, _)
ItemWords(it) == IF it.k = "text" THEN it.w ELSE <<"%" \o it.k \o (IF it.nm = "" THEN "" ELSE "." \o it.nm)>>
WordsOf(items) == IF items = <<>> THEN <<"">> ELSE Flat([i \in 1 .. Len(items) |-> ItemWords(items[i])])
PlainParam(s) == [s |-> s, n |-> s, num |-> "0", r |-> -1, rk |-> "no"]
NumParam(s) == [s |-> s, n |-> s, num |-> "1", r |-> -1, rk |-> "no"]
RefParam(i) == [s |-> "@" \o IdText(i), n |-> "-", num |-> "0", r |-> i, rk |-> "ref"]
BoolBlock(v) == [op |-> v, color |-> "-10701022", kind |-> "Boolean", tn |-> "", items |-> <<TextItem(v)>>, ss1 |-> <<>>, ss2 |-> <<>>]
\* all return [flat |-> blocks, next |-> next free id]
EncArgs(items, i, n) ==
  IF i > Len(items) THEN [params |-> <<>>, flat |-> <<>>, next |-> n]
  ELSE LET it == items[i] IN
    IF it.k = "text" THEN EncArgs(items, i + 1, n)
    ELSE IF it.vk = "blk" \/ (it.k = "b" /\ it.vk = "val") THEN
      LET b == IF it.vk = "blk" THEN it.b[1] ELSE BoolBlock(it.v)
          e == Enc(b, n)
          r == EncArgs(items, i + 1, e.next)
      IN [params |-> <<RefParam(n)>> \o r.params, flat |-> e.flat \o r.flat, next |-> r.next]
    ELSE LET r == EncArgs(items, i + 1, n)
             p == IF it.vk = "empty" THEN PlainParam("") ELSE IF it.k = "d" THEN NumParam(it.v) ELSE PlainParam(it.v)
         IN [params |-> <<p>> \o r.params, flat |-> r.flat, next |-> r.next]
Enc(b, n) ==   \* block b at id n, next pointer left at -1
  LET a == EncArgs(b.items, 1, n + 1)
      s1 == EncChain(b.ss1, a.next)
      s2 == EncChain(b.ss2, s1.next)
      w == WordsOf(b.items)
  IN [flat |-> <<[color |-> b.color, id |-> ToString(n), idn |-> n, idok |-> "1", next |-> -1, op |-> b.op, params |-> a.params,
                  spec |-> FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o " " \o y, "", w), words |-> w,
                  ss1 |-> IF b.ss1 = <<>> THEN -1 ELSE a.next, ss2 |-> IF b.ss2 = <<>> THEN -1 ELSE s1.next,
                  type |-> BlockLetter(b.kind), tn |-> BlockTypeName(b.kind, b.tn)]>> \o a.flat \o s1.flat \o s2.flat,
      next |-> s2.next]
EncChain(bs, n) ==
  IF bs = <<>> THEN [flat |-> <<>>, next |-> n]
  ELSE LET e == Enc(bs[1], n)
           r == EncChain(Tail(bs), e.next)
           h == [e.flat[1] EXCEPT !.next = IF Len(bs) = 1 THEN -1 ELSE e.next]
       IN [flat |-> <<h>> \o Tail(e.flat) \o r.flat, next |-> r.next]
Encode(forest) == EncChain(forest, 10).flat

(* ---------------------------------------------------------------- contents as a machine of their own *)
RECURSIVE ParseItems(_, _, _, _)
\* fill = FALSE: leave the arguments empty
ParseItems(words, i, params, fill) ==
  IF i > Len(words) THEN Ok(<<>>)
  ELSE IF ~IsParam(words[i]) THEN LET r == ParseItems(words, i + 1, params, fill) IN IF r.ok THEN Ok(<<TextItem(words[i])>> \o r.v) ELSE Bad
  ELSE IF ~GoodParam(words[i]) THEN Bad
  ELSE LET k == ParamKind(words[i])  nm == ParamName(words[i]) IN
    IF ~fill THEN LET r == ParseItems(words, i + 1, params, fill) IN IF r.ok THEN Ok(<<ArgItem(k, nm, "empty", "", <<>>)>> \o r.v) ELSE Bad
    ELSE IF params = <<>> THEN Bad
    ELSE LET a == ReadArg(k, nm, Head(params)) IN IF ~a.ok THEN Bad ELSE
         LET r == ParseItems(words, i + 1, Tail(params), fill) IN IF r.ok THEN Ok(<<a.v>> \o r.v) ELSE Bad
RECURSIVE ApplyArgs(_, _)
ApplyArgs(items, params) ==
  IF items = <<>> THEN Ok(<<>>)
  ELSE LET it == Head(items) IN
    IF it.k = "text" \/ it.vk # "empty" THEN LET r == ApplyArgs(Tail(items), params) IN IF r.ok THEN Ok(<<it>> \o r.v) ELSE Bad
    ELSE IF params = <<>> THEN Bad
    ELSE LET a == ReadArg(it.k, it.nm, Head(params)) IN IF ~a.ok THEN Bad ELSE
         LET r == ApplyArgs(Tail(items), Tail(params)) IN IF r.ok THEN Ok(<<a.v>> \o r.v) ELSE Bad
ApplyBlocks(items, have) ==
  LET Find(x) == {i \in 1 .. Len(have) : have[i].id = x}
      bad == \E i \in 1 .. Len(items) : items[i].vk = "ph" /\ Find(items[i].v) = {}
  IN IF bad THEN Bad ELSE Ok([i \in 1 .. Len(items) |-> IF items[i].vk # "ph" THEN items[i]
       ELSE Plug(items[i], have[CHOOSE j \in Find(items[i].v) : TRUE].b)])
ArgsOf(items) == SelectSeq(items, LAMBDA it : it.k # "text")
Emptied(items) == TLCEval([i \in 1 .. Len(items) |-> IF items[i].k = "text" THEN items[i] ELSE ArgItem(items[i].k, items[i].nm, "empty", "", <<>>)])
SetArg(items, n, a) ==   \* replace the n-th argument
  LET pos == {i \in 1 .. Len(items) : items[i].k # "text"}
      at == CHOOSE i \in pos : Cardinality({x \in pos : x <= i}) = n
  IN [items EXCEPT ![at] = a]
=============================================================================
