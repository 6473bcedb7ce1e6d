-------------------------------- MODULE Trace --------------------------------
(* Recorded runs of the real crate, checked step by step against the specification.
   Environment: TRACES (file of traces, one JSON object per line), PROP (the property to decide).
   Each trace is one behaviour: m is the specification's state, why the reason of the first step
   that the specification does not allow. *)
EXTENDS Refusal, Make, Crypt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
P == IOEnv.PROP

VARIABLES t, k, m, why
vars == <<t, k, m, why>>

NoRaw == <<>>
M0 == [content |-> <<>>, tree |-> <<>>, store |-> NoStore, files |-> <<>>, api |-> <<>>, auto |-> FALSE, clean |-> FALSE, raw |-> NoRaw, from |-> NoRaw, saved |-> <<>>, base |-> <<>>, fs |-> {}, disk |-> ("" :> <<>>), bench |-> NoBench]

Is(ps) == P \in ps

(* ---------------------------------------------------------------- block code: C04 C05 *)
VEnc(s) ==
  IF s.out # "ok" THEN "encoding failed"
  ELSE IF Is({"C04"}) THEN
    IF ~WellFormed(s.flat) THEN "stored blocks are not well formed"
    ELSE LET d == Decode(s.flat) IN IF ~d.ok THEN "stored blocks do not decode" ELSE IF Norm(d.v) # Norm(s.forest) THEN "stored blocks encode another program" ELSE ""
  ELSE LET d == Decode(s.flat) IN
    IF d.ok THEN (IF s.back.out # "ok" THEN "refused well formed blocks" ELSE IF LitBlocks(s.back.forest) THEN "a literal is shown as a block" ELSE IF Norm(s.back.forest) # Norm(d.v) THEN "read another program" ELSE "")
    ELSE IF s.back.out # "err" THEN "accepted malformed blocks" ELSE ""
VDec(s) ==
  LET d == Decode(s.flat) IN
  IF s.out = "panic" THEN "panic"
  ELSE IF ~d.ok THEN (IF s.out = "ok" THEN "accepted malformed blocks" ELSE "")
  ELSE IF s.out # "ok" THEN "refused well formed blocks"
  ELSE IF Norm(s.forest) # Norm(d.v) THEN "read another program" ELSE IF LitBlocks(s.forest) THEN "a literal is shown as a block" ELSE ""

(* ---------------------------------------------------------------- contents: C06 *)
SplitText(items) == Flat([i \in 1 .. Len(items) |-> IF items[i].k = "text" THEN [n \in 1 .. Len(items[i].w) |-> TextItem(items[i].w[n])] ELSE <<items[i]>>])
SameItems(a, b) == SplitText(a) = SplitText(b)
\* r: the specified result, lax: an empty text argument may be shown as absent
VContent(s, r, lax) ==
  IF s.out = "panic" THEN "panic"
  ELSE IF ~r.ok THEN (IF s.out = "ok" THEN "accepted a malformed content" ELSE IF s.content # m.content THEN "a refused call changed the content" ELSE "")
  ELSE IF s.out # "ok" THEN "refused a well formed content"
  ELSE IF lax THEN (IF NormItems(s.content) # NormItems(r.v) THEN "content differs" ELSE "")
  ELSE IF ~SameItems(s.content, r.v) THEN "content differs" ELSE ""
CountArgs(items) == Len(ArgsOf(items))
VContentOp(s) ==
  CASE s.op = "content.build" -> ""
    [] s.op = "content.parse" -> VContent(s, ParseItems(s.words, 1, s.params, TRUE), TRUE)
    [] s.op = "content.parse_wo" -> VContent(s, ParseItems(s.words, 1, <<>>, FALSE), FALSE)
    [] s.op = "content.apply" -> VContent(s, ApplyArgs(m.content, s.params), TRUE)
    [] s.op = "content.blocks" -> VContent(s, ApplyBlocks(m.content, s.have), FALSE)
    [] s.op = "content.string" -> (IF ~(s.out = "ok") THEN "rendering failed" ELSE IF ~(s.words = WordsOf(m.content)) THEN "rendered text differs" ELSE IF ~(s.content = m.content) THEN "rendering changed the content" ELSE "")
    [] s.op = "content.take" -> (IF ~(s.out = "ok") THEN "take failed" ELSE IF ~(s.args = ArgsOf(m.content)) THEN "taken arguments differ" ELSE IF ~(SameItems(s.content, Emptied(m.content))) THEN "what is left differs" ELSE "")
    [] s.op = "content.args" -> (IF ~(s.out = "ok") THEN "args failed" ELSE IF ~(s.args = ArgsOf(m.content)) THEN "arguments differ" ELSE IF ~(s.content = m.content) THEN "looking changed the content" ELSE "")
    [] s.op = "content.set" -> IF s.i > CountArgs(m.content) THEN (IF s.out = "err" THEN "" ELSE "set beyond the arguments")
                               ELSE (IF ~(s.out = "ok") THEN "set failed" ELSE IF ~(SameItems(s.content, SetArg(m.content, s.i, s.item))) THEN "set changed something else" ELSE "")

(* ---------------------------------------------------------------- view trees: C07 C08 *)
ViewsOf(lines) == LET q == SelectSeq(lines, LAMBDA x : x.k # "blank")  r == Map(q, ViewItem)
                  IN IF \A i \in 1 .. Len(r) : r[i].st = "ok" THEN Ok([i \in 1 .. Len(r) |-> r[i].v]) ELSE Bad
\* where each stored view hangs
Hang(flat) == {[id |-> flat[i]["id"], parent |-> flat[i]["parent"], pt |-> flat[i]["parentType"]] : i \in 1 .. Len(flat)}
RECURSIVE HangOf(_, _, _)
HangOf(tree, parent, pt) == UNION {{[id |-> tree[i].id, parent |-> "=" \o parent, pt |-> pt]} \cup HangOf(tree[i].kids, tree[i].id, TypeOfView(tree[i])) : i \in 1 .. Len(tree)}
Structure(flat, tree) ==
  LET r == Rebuild(flat) IN Len(flat) = Len(Ids(tree)) /\ r.ok /\ Shape(r.v) = Shape(tree) /\ Hang(flat) = HangOf(tree, "root", "0")
Values(flat, tree) == {flat[i] : i \in 1 .. Len(flat)} = AllRaw(tree, "root", "0")
VTree(s) ==
  CASE s.op = "tree.load" ->
         (LET r == Rebuild(s.flat) IN
          IF s.out = "panic" THEN "panic"
          ELSE IF ~r.ok THEN (IF s.out = "ok" THEN "accepted a view without a parent" ELSE "")
          ELSE IF s.out # "ok" THEN "refused a layout"
          ELSE IF Shape(s.tree) # Shape(r.v) THEN "tree differs"
          ELSE IF Is({"C08"}) /\ s.tree # r.v THEN "values differ" ELSE "")
    [] s.op = "tree.obs" -> IF s.tree # m.tree THEN "the tree differs from the edited one" ELSE ""
    [] s.op = "tree.find" -> LET h == FindIn(m.tree, s.id) IN (IF ~(s.out = "ok") THEN "find failed" ELSE IF ~(s.hit = h) THEN "found another view" ELSE IF ~(s.hitm = h) THEN "found another view (mut)" ELSE "")
    [] s.op = "tree.flatten" ->
         IF s.out # "ok" THEN "flattening failed"
         ELSE IF Is({"C07"}) THEN (IF ~(Structure(s.flat, m.tree)) THEN "flat list does not hold the tree" ELSE IF ~(s.text.out = "ok") THEN "writing failed" ELSE IF ~(s.text.back.out = "ok") THEN "written layout is refused" ELSE IF ~(Shape(s.text.back.tree) = Shape(m.tree)) THEN "tree read back differs" ELSE "")
         ELSE (IF ~(Values(s.flat, m.tree)) THEN "flat list does not hold the values" ELSE IF ~(s.text.out = "ok") THEN "writing failed" ELSE IF ~(LET v == ViewsOf(s.text.lines) IN v.ok /\ Values(v.v, m.tree)) THEN "written views differ" ELSE "")
    [] OTHER -> IF s.out = "ok" THEN "" ELSE "a view is gone"
MaskApply(r) == [r EXCEPT !["type"] = "*"]
VKind(s) ==
  CASE s.op = "view.from" -> (IF ~(s.out = "ok") THEN "reading a view failed" ELSE IF ~(s.view = ViewOf(s.raw)) THEN "view differs" ELSE "")
    [] s.op = "kind.of" -> LET n == KindOf(s.raw) IN
         IF n.k = "Err" THEN (IF ~(s.out = "err") THEN "made up a kind" ELSE "") ELSE (IF ~(s.out = "ok") THEN "kind not recognised" ELSE IF ~(s.kind = n) THEN "kind differs" ELSE "")
    [] s.op = "kind.id" -> (IF ~(s.out = "ok") THEN "no type code" ELSE IF ~(s.code = TypeId(s.kind)) THEN "type code differs" ELSE "")
    [] s.op = "kind.apply" -> (IF ~(s.out = "ok") THEN "apply failed" ELSE IF ~(MaskApply(s.after) = MaskApply(ApplyKind(s.kind, s.raw))) THEN "applied values differ" ELSE IF ~(s.after["type"] \in {s.raw["type"], TypeId(s.kind)}) THEN "type code differs" ELSE "")

(* ---------------------------------------------------------------- data files: C02 C03 C13 C15 *)
Reads(kind, lines, v) == LET r == Read(kind, lines) IN r.st = "ok" /\ SameModel(kind, r.v, v)
\* the sections of one sort follow each other in the order of the screens they belong to
LogicHeads(lines) == LET q == SelectSeq(lines, LAMBDA z : z.k = "head") IN Map(q, LAMBDA z : LogicHead(z.h).v)
SectionsOf(lines, sort) == LET q == SelectSeq(LogicHeads(lines), LAMBDA h : PoolOf(h[2]) = sort) IN Map(q, LAMBDA h : h[1])
Once(q) == SelectSeq([i \in 1 .. Len(q) |-> [v |-> q[i], new |-> \A j \in 1 .. i - 1 : q[j] # q[i]]], LAMBDA x : x.new)
InModelOrder(lines, screens) ==
  \A sort \in {"", "vars", "lists", "comps", "events", "mbs"} :
     LET has == SelectSeq(screens, LAMBDA x : IF sort = "" THEN x.conts # <<>> ELSE x[sort].some = "1")
     IN Map(Once(SectionsOf(lines, sort)), LAMBDA x : x.v) = Map(has, LAMBDA x : x.name)
VWrite(s) ==
  (IF ~(s.out = "ok") THEN "writing failed" ELSE IF ~(Reads(s.kind, s.lines, s.model)) THEN "the text does not say what the model says" ELSE IF s.kind = "logic" /\ ~InModelOrder(s.lines, s.model.screens) THEN "the sections are in another order" ELSE IF ~(s.back.out = "ok") THEN "the written text is refused" ELSE IF ~(SameModel(s.kind, s.back.model, s.model)) THEN "reading it back gives another model" ELSE IF ~(s.back.eq = "true" \/ s.kind = "logic") THEN "reading it back gives an unequal model" ELSE "")
\* an instant before 1970 is refused, or it is exact
BeforeEpoch(kind, v) == kind = "project" /\ ToInt(v.days) < 0
VParse(s) ==
  LET r == Read(s.kind, s.lines) IN
  IF s.out = "panic" THEN "panic"
  ELSE IF s.out = "ok" /\ s.again.out = "panic" THEN "panic on writing"
  ELSE IF r.st = "any" THEN ""
  ELSE IF r.st = "err" THEN (IF Is({"C13", "C15", "C21"}) /\ s.out = "ok" THEN "accepted a malformed file" ELSE "")
  ELSE IF s.out = "err" THEN (IF r.st = "may" \/ BeforeEpoch(s.kind, r.v) THEN "" ELSE IF Is({"C03", "C15", "C21"}) THEN "refused a well formed file" ELSE "")
  ELSE IF ~SameModel(s.kind, s.model, r.v) THEN (IF r.st = "ok" /\ Is({"C13"}) THEN "" ELSE "read something else")
  ELSE IF Is({"C13"}) THEN ""
  ELSE IF s.again.out # "ok" THEN "cannot be written again"
  ELSE IF ~Reads(s.kind, s.again.lines, r.v) THEN "written again it says something else" ELSE ""

\* a piece is taken from the lines up to the first blank one, the lines after it are left
VIter(s) ==
  LET r == ReadRun(s.kind, s.lines) IN
  IF s.out = "panic" THEN "panic"
  ELSE IF r.st = "any" THEN ""
  ELSE IF r.st = "err" THEN (IF s.out = "ok" THEN "accepted a malformed entry" ELSE "")
  ELSE IF s.out = "err" THEN (IF r.st = "may" THEN "" ELSE "refused well formed entries")
  ELSE IF s.model # r.v THEN "read something else"
  ELSE IF s.rest # RunRest(s.lines) THEN "took the wrong lines" ELSE ""

(* ---------------------------------------------------------------- resources: C10 C11 *)
VStore(s) ==
  CASE s.op = "res.new" -> (IF ~(s.dump = NoStore) THEN "not empty" ELSE "")
    [] s.op = "res.load" -> (IF s.out # "none" /\ s.dump # m.api.res THEN "another store than that of the project" ELSE "")
    [] s.op = "res.put" ->
         IF PutOk(m.store, m.fs, s.id, s.file) THEN (IF ~(s.out = "ok") THEN "put refused" ELSE IF ~(s.dump = Place(m.store, s.id, s.file, s.t)) THEN "store differs after put" ELSE "")
         ELSE (IF ~(s.out = "err") THEN "put must be refused" ELSE IF ~(s.dump = m.store) THEN "a refused put changed the store" ELSE "")
    [] s.op \in {"res.get", "res.remove"} ->
         LET h == At_(m.store, s.id)
             after == IF s.op = "res.get" THEN m.store ELSE TakenFrom(m.store, s.id, s.got.t)
         IN IF h = <<>> THEN (IF ~(s.out = "err") THEN "found what is not there" ELSE IF ~(s.dump = m.store) THEN "store changed" ELSE "")
            ELSE (IF ~(s.out = "ok") THEN "resource not found" ELSE IF s.got \notin Elems(h) THEN "another resource" ELSE IF ~(s.dump = after) THEN "store differs" ELSE "")
Plain4(f) == [k |-> f.k, id |-> f.id, fn |-> f.fn, t |-> f.t]
VFiles(s) ==
  CASE s.op = "rfiles.from" ->
         (LET l == Map(s.files, Plain4) IN
          IF ~FilesOk(l, m.fs) THEN (IF ~(s.out = "err") THEN "accepted a missing or misplaced file" ELSE "")
          ELSE IF Clash(l) THEN (IF ~(s.out # "panic") THEN "panic" ELSE "")
          ELSE (IF ~(s.out = "ok") THEN "refused the files" ELSE IF ~(SeenMaps(s.maps) = MapsOf(l)) THEN "files sorted wrongly" ELSE ""))
    [] s.op = "rfiles.into" -> IF Clash(m.files) THEN (IF ~(s.out # "panic") THEN "panic" ELSE "") ELSE (IF ~(s.out = "ok") THEN "listing failed" ELSE IF ~(AsSet(s.list) = AsSet(m.files) /\ Len(s.list) = Len(m.files)) THEN "list differs" ELSE IF ~(IF FilesOk(m.files, m.fs) THEN s.back.out = "ok" /\ SeenMaps(s.back.maps) = MapsOf(m.files) ELSE s.back.out = "err") THEN "reading the list again differs" ELSE "")
    [] s.op = "rfiles.name" -> (IF ~(s.out = "ok") THEN "no name" ELSE IF ~(s.name = FullName(s.file)) THEN "another name" ELSE "")

(* ---------------------------------------------------------------- encryption: C12 *)
VCrypt(s) ==
  LET Res(r) == IF ~r.ok THEN (IF ~(s.out = "err") THEN "accepted what cannot be decrypted to a text" ELSE "") ELSE (IF ~(s.out = "ok") THEN "refused" ELSE IF ~(s.res = r.v) THEN "bytes differ" ELSE "")
      Gone == (IF ~(s.out = "err") THEN "read a file that is not there" ELSE "")
  IN CASE s.op = "crypt.enc" -> Res(Ok(Encrypt(s.data)))
       [] s.op = "crypt.dec" -> Res(Decrypt(s.data))
       [] s.op = "crypt.encfile" -> IF s.p \notin m.fs THEN Gone ELSE Res(Ok(Encrypt(m.disk[s.p])))
       [] s.op = "crypt.decfile" -> IF s.p \notin m.fs THEN Gone ELSE Res(Decrypt(m.disk[s.p]))
       [] s.op = "crypt.encto" -> IF s.p \notin m.fs THEN Gone ELSE (IF ~(s.out = "ok") THEN "refused" ELSE "")
       [] s.op = "fs.read" -> IF s.p \notin m.fs THEN (IF ~(s.out = "err") THEN "a file is there that should not be" ELSE "") ELSE (IF ~(s.out = "ok") THEN "file is gone" ELSE IF ~(s.data = m.disk[s.p]) THEN "file content differs" ELSE "")
       [] s.op = "fs.list" -> (IF ~(AsSet(s.files) = m.fs) THEN "files on disk differ" ELSE "")

(* ---------------------------------------------------------------- code tables and scalars: C14 C15 *)
CompBack(c, kd) == [id |-> c.id, p1 |-> IF kd \in ComponentsWithParam THEN c.p1 ELSE "", p2 |-> "", p3 |-> "", type |-> c.type]
Hex == "0123456789abcdef"
RgbOf(c) == <<c.r, c.g, c.b>>
VCode(s) ==
  CASE s.op = "codes.comp" ->
         (LET r == CompOf(s.c) IN IF ~r.ok THEN (IF ~(s.out = "err") THEN "made up a component" ELSE "")
          ELSE (IF ~(s.out = "ok") THEN "component not recognised" ELSE IF ~(s.kind = r.v.kind /\ s.p = r.v.p) THEN "another component" ELSE IF ~(s.back.out = "ok" /\ Drop(s.back.c, {"p2", "p3"}) = Drop(CompBack(s.c, r.v.kind), {"p2", "p3"})) THEN "written back differently" ELSE ""))
    [] s.op = "codes.compinto" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(Drop(s.c, {"p2", "p3"}) = [id |-> s.id, p1 |-> s.p, type |-> CodeOf(Components, s.kind).v]) THEN "written as another component" ELSE "")
    [] s.op = "codes.event" -> LET r == EventOf(s.e) IN IF ~r.ok THEN (IF ~(s.out = "err") THEN "made up an event type" ELSE "") ELSE (IF ~(s.out = "ok") THEN "event refused" ELSE IF ~(s.event = r.v) THEN "event differs" ELSE "")
    [] s.op = "codes.etype" -> LET r == EventOf(s.e) IN IF ~r.ok THEN (IF ~(s.out = "err") THEN "made up an event type" ELSE "")
                               ELSE (IF ~(s.out = "ok") THEN "event refused" ELSE IF ~(s.et = r.v.et /\ s.target = r.v.target /\ s.ctype = r.v.ctype) THEN "event type differs" ELSE "")
    [] s.op = "codes.eventinto" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(s.e = LowerEvent(s.event)) THEN "written as another event" ELSE IF ~(s.cont = ContId(s.event.et, s.event.target, s.event.name)) THEN "another container" ELSE IF ~(Norm(s.code) = Norm(s.event.code)) THEN "code differs" ELSE "")
    [] s.op = "codes.btype" -> LET r == BlockKind(s.type, s.tn) IN IF ~r.ok THEN (IF ~(s.out = "err") THEN "made up a block type" ELSE "")
                               ELSE (IF ~(s.out = "ok") THEN "block type refused" ELSE IF ~(s.kind = r.v /\ s.ktn = (IF r.v \in TypedKinds THEN s.tn ELSE "")) THEN "another block type" ELSE "")
    [] s.op = "codes.btypeinto" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(s.type = BlockLetter(s.kind) /\ s.name = BlockTypeName(s.kind, s.tn)) THEN "written as another type" ELSE "")
    [] s.op = "codes.cat" -> LET c == {x \in Categories : ToString(x[1]) = ToString(s.rgb)} IN
         IF c = {} THEN (IF ~(s.out = "err") THEN "made up a category" ELSE "") ELSE (IF ~(s.out = "ok") THEN "category not recognised" ELSE IF ~(s.cat = (CHOOSE x \in c : TRUE)[2]) THEN "another category" ELSE "")
    [] s.op = "codes.catinto" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(s.rgb = CodeOf(Categories, s.cat).v) THEN "another colour" ELSE IF ~(s.back.out = "ok" /\ s.back.cat = s.cat) THEN "not recognised again" ELSE "")
    [] s.op = "codes.vt" -> LET r == NameOf(VarTypes, s.n) IN IF ~r.ok THEN (IF ~(s.out = "err") THEN "made up a variable type" ELSE "") ELSE (IF ~(s.out = "ok") THEN "variable type refused" ELSE IF ~(s.vt = r.v /\ s.code = s.n) THEN "another variable type" ELSE "")
    [] s.op = "codes.opts" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(s.flags = OptFlags(s.n)) THEN "flags differ" ELSE IF ~(s.back.out = "ok" /\ s.back.n = s.n % 16) THEN "written back differently" ELSE "")
    [] s.op = "color.make" ->
         LET a == IF s.via \in {"rgb", "hex6"} THEN 255 ELSE s.a IN
         (IF ~(s.out = "ok") THEN "colour refused" ELSE IF ~(s.got = [a |-> a, r |-> s.r, g |-> s.g, b |-> s.b]) THEN "channels differ" ELSE IF ~(s.rgb = <<s.r, s.g, s.b>>) THEN "rgb differs" ELSE IF ~(s.json.out = "ok" /\ s.json.i32 = "true" /\ s.json.bytes = <<a, s.r, s.g, s.b>>) THEN "written as another colour"
          ELSE IF s.disp # ColorText(<<a, s.r, s.g, s.b>>) THEN "shown as another colour" ELSE "")
    [] s.op = "color.hex" ->
         LET n == Len(s.txt)
             IsHex == n > 0 /\ \A i \in 1 .. n : \E j \in 1 .. 16 : Ch(Hex, j) = Ch(s.txt, i) \/ UpperCh(Ch(Hex, j)) = Ch(s.txt, i)
         IN IF s.out = "panic" THEN "panic" ELSE IF IsHex THEN (IF n \in {6, 8} /\ s.out # "ok" THEN "colour refused" ELSE "") ELSE IF s.out = "ok" /\ (n = 0 \/ Ch(s.txt, 1) # "+") THEN "made up a colour" ELSE ""

(* ---------------------------------------------------------------- whole projects: C01 C09 C11 C16 C17 C18 C19 *)
ProjScreen(s) ==
  CASE Is({"C09"}) -> [n |-> s.layoutName, ev |-> s.events, mb |-> s.mbs]
    [] Is({"C18"}) -> [n |-> s.layoutName, j |-> s.javaName, l |-> Shape(s.layout), f |-> Shape(s.fab), v |-> s.vars, li |-> s.lists, c |-> s.comps,
                       e |-> Map(s.events, LAMBDA e : [e EXCEPT !.code = <<>>]), m |-> Map(s.mbs, LAMBDA x : x.id),
                       o |-> <<s.fullscreenOn, s.toolbarOn, s.drawerOn, s.fabOn, s.orientation, s.theme, s.kbd>>]
    [] Is({"C08"}) -> [n |-> s.layoutName, l |-> s.layout, f |-> s.fab]
    [] OTHER -> s
Proj(a) ==
  CASE Is({"C09"}) -> Map(a.screens, ProjScreen) [] Is({"C16"}) -> a.libs [] Is({"C11"}) -> <<a.res, a.icon>>
    [] Is({"C18"}) -> <<Map(a.screens, ProjScreen), Map(a.cviews, LAMBDA c : <<c.name, Shape(c.layout)>>)>>
    [] Is({"C08"}) -> <<Map(a.screens, ProjScreen), Map(a.cviews, LAMBDA c : c)>>
    [] OTHER -> a
\* the files a property is about; the others are taken as they should be
About == CASE Is({"C09"}) -> {"file", "logic"} [] Is({"C16"}) -> {"library"} [] Is({"C11"}) -> {"resource"} [] Is({"C18"}) -> {"file", "view", "logic"} [] Is({"C08"}) -> {"file", "view"} [] OTHER -> Kinds
SameApi(a, b, auto) == Proj(NormApi(a, auto)) = Proj(NormApi(b, auto))

VSave(s) ==
  IF s.out # "ok" THEN "saving failed" ELSE
  LET r == ReadAll(s.raw)  low == Lower(m.api)
      mods == TLCEval([x \in Kinds |-> IF x \in About THEN r[x].v ELSE low[x]])
      files == IF Is({"C01", "C11"}) THEN s.raw.files ELSE SavedFiles(m.api, m.auto)
      want == StoredApi(m.api)
  IN IF \E x \in About : r[x].st # "ok" THEN "a saved file is malformed"
     ELSE IF Is({"C01", "C11"}) /\ (s.raw.files.some = "0") # m.auto THEN "resource files not carried along"
     ELSE IF Is({"C01", "C11"}) /\ ~m.auto /\ (AsSet(s.raw.files.l) # FilesToSave(m.api) \/ Len(s.raw.files.l) # Cardinality(FilesToSave(m.api))) THEN "other resource files"
     ELSE IF Is({"C01", "C11"}) /\ r.project.v.customIcon # BoolStr(m.api.icon # <<>>) THEN "icon flag differs"
     ELSE LET l == Lift(mods, files) IN
          IF ~l.ok THEN "the saved files do not make up a project" ELSE IF ~SameApi(l.v, want, m.auto) THEN "the saved files say something else" ELSE ""

LoadFiles(s) == IF s.res = "keep" THEN m.raw.files ELSE IF s.res = "none" THEN [some |-> "0", l |-> <<>>] ELSE s.files
MadeUp(r) == Map(r.images \o r.sounds \o r.fonts, LAMBDA x : x.file.id)
VLoad(s) ==
  LET r == ReadAll(m.raw)  f == LoadFiles(s)
      auto == f.some = "0"
      fok == auto \/ FilesOk(f.l, m.fs)
      odd == {x \in Kinds : r[x].st # "ok"} \cup (IF fok THEN {} ELSE {"resource_files"})
      badd == {x \in Kinds : r[x].st = "err"} \cup (IF fok THEN {} ELSE {"resource_files"})
      open == (\E x \in Kinds : r[x].st = "any") \/ (~auto /\ Clash(f.l)) \/ (badd = {} /\ ClaimedTwice(Models(r)))
      l == IF badd = {} /\ ~open THEN Lift(Models(r), f) ELSE Bad
  IN IF s.out = "panic" THEN "panic"
     ELSE IF Is({"C11"}) /\ auto /\ s.out = "ok" /\ ~NoDup(MadeUp(s.obs.res)) THEN "the same id made up twice"
     \* C01: a saved project comes back
     ELSE IF m.saved # <<>> /\ s.res = "keep" /\ fok THEN
       (IF s.out # "ok" THEN "a saved project is refused" ELSE IF ~SameApi(s.obs, m.saved[1].api, m.saved[1].auto) THEN "another project came back" ELSE "")
     ELSE IF open THEN ""
     ELSE IF badd # {} THEN (IF s.out = "ok" THEN "accepted malformed files" ELSE IF Is({"C17", "C13", "C11"}) /\ ~(s.stage = "parse" /\ s.which \in odd) THEN "the error names another file" ELSE "")
     ELSE IF odd # {} THEN (IF s.out = "ok" THEN (IF ~l.ok THEN "accepted what does not make up a project" ELSE IF ~SameApi(s.obs, l.v, auto) THEN "loaded something else" ELSE "")
                            ELSE IF Is({"C17"}) /\ s.stage = "parse" /\ s.which \notin odd THEN "the error names another file" ELSE "")
     ELSE IF ~l.ok THEN (IF s.out = "ok" THEN "accepted what does not make up a project" ELSE IF Is({"C17"}) /\ s.stage # "lift" THEN "the error names a sound file" ELSE "")
     ELSE IF s.out # "ok" THEN "refused a sound project"
     ELSE IF ~SameApi(s.obs, l.v, auto) THEN "loaded something else" ELSE ""

VRaw(s) ==
  CASE s.op = "sess.newraw" -> (IF ~(s.out = "ok") THEN "failed" ELSE IF ~(s.raw = s.given) THEN "files in other places" ELSE "")
    [] s.op = "sess.crypt" -> IF s.bad = "" THEN (IF ~(s.out = "ok") THEN "refused encrypted files" ELSE IF ~(s.raw = m.raw) THEN "decrypted files in other places" ELSE "")
                              ELSE (IF ~(s.out = "err") THEN "accepted what cannot be decrypted to a text" ELSE "")
    [] s.op = "sess.parsed" ->
         LET r == ReadAll(m.raw)
             f == m.raw.files
             fok == f.some = "0" \/ FilesOk(f.l, m.fs)
             odd == {x \in Kinds : r[x].st # "ok"} \cup (IF fok THEN {} ELSE {"resource_files"})
         IN IF s.out = "panic" THEN "panic"
            ELSE IF \E x \in Kinds : r[x].st \in {"any", "may"} THEN ""
            ELSE IF odd # {} THEN (IF ~(s.out = "err") THEN "accepted malformed files" ELSE IF ~(s.which \in odd) THEN "the error names another file" ELSE "")
            ELSE (IF ~(s.out = "ok") THEN "refused sound files" ELSE IF ~(\A x \in Kinds : SameModel(x, s.parsed[x], r[x].v)) THEN "a file landed in another place" ELSE IF ~(s.back.out = "ok") THEN "cannot be written again" ELSE IF ~(LET b == ReadAll(s.back.raw) IN DocsSt(b) = "ok" /\ \A x \in Kinds : SameModel(x, b[x].v, r[x].v)) THEN "a file is written to another place" ELSE IF ~(s.back.raw.files.some = f.some /\ AsSet(s.back.raw.files.l) = AsSet(f.l)) THEN "resource files differ" ELSE "")

\* C19: what the six files say, leaving out what carries no meaning (order of views across parents, ids of blocks)
CanonView(v, owned) == [lay |-> {[n |-> v.layouts[i].name, r |-> {MaskRaw(v.layouts[i].views[j]) : j \in 1 .. Len(v.layouts[i].views)},
                                  sh |-> LET b == Rebuild(v.layouts[i].views) IN IF b.ok THEN Shape(b.v) ELSE <<>>] : i \in {x \in 1 .. Len(v.layouts) : Len(v.layouts[x].views) > 0}},
                        fab |-> {[n |-> v.fabs[i].name, r |-> MaskRaw(v.fabs[i].view)] : i \in 1 .. Len(v.fabs)}]
CanonCont(c) == [id |-> c.id, code |-> LET d == Decode(c.flat) IN IF d.ok THEN Norm(d.v) ELSE <<>>]
Canon(x) ==
  [p |-> x.project, f |-> x.file, l |-> x.library, r |-> x.resource, v |-> CanonView(x.view, {}),
   g |-> {[n |-> s.name, v |-> s.vars.l, li |-> s.lists.l, c |-> s.comps.l, e |-> s.events.l, m |-> [i \in 1 .. Len(s.mbs.l) |-> <<s.mbs.l[i].id, s.mbs.l[i].words>>],
            b |-> {CanonCont(s.conts[i]) : i \in {y \in 1 .. Len(s.conts) : s.conts[y].flat # <<>> \/ s.conts[y].id = "onCreate_initializeLogic"}}] : s \in AsSet(x.logic.screens)}]
Diff(a, b) == IF a.p # b.p THEN "project" ELSE IF a.f # b.f THEN "file" ELSE IF a.l # b.l THEN "library" ELSE IF a.r # b.r THEN "resource" ELSE IF a.v # b.v THEN "view" ELSE IF a.g # b.g THEN "logic" ELSE ""
VKeep(s) ==
  IF s.out # "ok" THEN "saving failed" ELSE
  LET a == ReadAll(m.from)  b == ReadAll(s.raw) IN
  IF DocsSt(b) # "ok" THEN "a saved file is malformed"
  ELSE LET d == Diff(Canon(Models(a)), Canon(Models(b))) IN IF d # "" THEN "loading and saving changed the file: " \o d ELSE IF s.raw.files # m.from.files THEN "loading and saving changed the resource files" ELSE ""

\* C20: what was not edited is written as before, byte for byte
VSame(s) ==
  IF s.out # "ok" THEN "saving failed"
  ELSE IF m.base = <<>> THEN ""
  ELSE LET d == SelectSeq(DocKinds, LAMBDA x : x \notin m.base[1].touched /\ s.sum[x] # m.base[1].sum[x])
       IN IF d = <<>> THEN "" ELSE "an untouched file is written differently: " \o d[1]
InOrder(a) == \A i \in 1 .. Len(a.screens) : OnCreateFirst(a.screens[i].events) = a.screens[i].events
Touch(q, x) == IF q = <<>> THEN q ELSE <<[q[1] EXCEPT !.touched = @ \cup x]>>
\* an event list that did not begin with onCreate does after loading; made up resource ids come without an icon
Base(s) ==
  CASE s.op = "sess.save" -> IF s.out = "ok" THEN <<[sum |-> s.sum, touched |-> {}]>> ELSE m.base
    [] s.op = "sess.edit" -> IF s.out = "ok" THEN Touch(m.base, Affects(s)) ELSE m.base
    [] s.op = "sess.load" /\ s.res \in {"keep", "none"} /\ m.saved # <<>> ->
         Touch(m.base, (IF InOrder(m.saved[1].api) THEN {} ELSE {"logic"}) \cup (IF s.res = "none" THEN {"project"} ELSE {}))
    [] OTHER -> <<>>

VSess(s) ==
  CASE s.op = "sess.new" -> IF Is({"C01", "C23"}) /\ (s.obs # s.given.project \/ s.given.bare # "true") THEN "the project does not hold what it was given" ELSE ""
    [] s.op = "sess.edit" -> LET r == EditApi(m.api, s, m.fs) IN IF s.out = "panic" THEN "panic" ELSE IF (s.out = "ok") = r.ok THEN (IF r.ok /\ s.edit = "res.del" /\ s.gone \notin Elems(At_(m.api.res, s.id)) THEN "another resource was removed" ELSE "") ELSE IF r.ok THEN "edit refused" ELSE "edit must be refused"
    [] s.op = "sess.obs" -> IF NormApi(s.obs, m.auto) = NormApi(m.api, m.auto) THEN "" ELSE "the project differs from the edited one"
    [] s.op = "sess.save" /\ Is({"C20"}) -> VSame(s)
    [] s.op = "sess.save" -> IF Is({"C19"}) THEN (IF m.clean THEN VKeep(s) ELSE "") ELSE VSave(s)
    [] s.op = "sess.load" -> IF Is({"C19", "C20"}) THEN (IF s.out = "ok" THEN "" ELSE "refused a sound project") ELSE VLoad(s)
    [] s.op \in {"sess.newraw", "sess.crypt", "sess.parsed"} -> VRaw(s)
    [] OTHER -> ""

(* ---------------------------------------------------------------- refusals: C22 *)
\* what a refused step may have been refused for; {} when nothing is known to be wrong (other properties decide that)
LoadFault(s) ==
  LET r == ReadAll(m.raw)  f == LoadFiles(s) IN
  IF s.stage = "parse" THEN (IF s.which = "resource_files" THEN FilesFault(f.l, m.fs) ELSE DocFault(s.which, m.raw[s.which]))
  ELSE IF DocsSt(r) # "ok" \/ (f.some = "1" /\ Clash(f.l)) \/ ClaimedTwice(Models(r)) THEN {} ELSE LiftFault(Models(r), f)
FaultsOf(s) ==
  CASE s.op = "blocks.dec" -> FlatFault(s.flat)
    [] s.op = "content.parse" -> WordsFault(s.words, 1, s.params, TRUE) [] s.op = "content.parse_wo" -> WordsFault(s.words, 1, <<>>, FALSE)
    [] s.op = "content.apply" -> FillFault(m.content, s.params) [] s.op = "content.blocks" -> PlugFault(m.content, s.have)
    [] s.op = "tree.load" -> TreeFault(s.flat) [] s.op = "kind.of" -> KindFault(s.raw)
    [] s.op = "doc.parse" -> DocFault(s.kind, s.lines) [] s.op = "doc.iter" -> RunFault(s.kind, s.lines)
    [] s.op = "res.put" -> PutFault(m.store, m.fs, s.id, s.file) [] s.op = "rfiles.from" -> FilesFault(Map(s.files, Plain4), m.fs)
    [] s.op = "codes.comp" -> CompFault(s.c) [] s.op \in {"codes.event", "codes.etype"} -> EventFault(s.e)
    [] s.op = "codes.btype" -> {<<[k |-> "btype", type |-> s.type, tn |-> s.tn]>>} [] s.op = "codes.cat" -> {<<[k |-> "cat", color |-> s.color]>>}
    [] s.op = "codes.vt" -> {<<[k |-> "vt", value |-> s.n]>>}
    [] s.op \in {"crypt.encfile", "crypt.encto"} -> {<<[k |-> "x.io"]>>} [] s.op = "crypt.dec" -> {<<[k |-> "x.dec"]>>}
    [] s.op = "sess.crypt" -> {<<[k |-> IF s.how \in {"bytes", "tail"} THEN "x.utf8" ELSE "x.dec"]>>}
    [] s.op = "crypt.decfile" -> {<<IF s.p \in m.fs THEN [k |-> "x.dec"] ELSE [k |-> "x.io"]>>}
    [] s.op = "sess.load" -> LoadFault(s)
    [] s.op = "sess.edit" /\ s.edit = "res.put" -> PutFault(m.api.res, m.fs, s.id, s.file)
    [] OTHER -> {}
VFault(s) ==
  IF s.out # "err" \/ "fault" \notin DOMAIN s THEN ""
  ELSE LET F == FaultsOf(s) IN
    IF F # {} /\ \A p \in F : ~Points(p, s.fault) THEN "the refusal points at something else"
    ELSE IF \E i \in 1 .. Len(s.fault) : ~SaysSo(s.fault[i]) THEN "the message does not name what was refused" ELSE IF ~Chained(s.fault) THEN "the error below is lost" ELSE ""

(* ---------------------------------------------------------------- made from nothing: C23 *)
KeptEvent(e, ev) == LET l == LowerEvent([ev EXCEPT !.name = e.name]) IN {l, [l EXCEPT !.ttype = IF ev.et = "component" THEN @ ELSE e.ttype]}
VMake(s) ==
  IF s.out = "panic" THEN "panic" ELSE
  CASE s.op \in {"make.start", "make.text", "make.arg", "make.hold"} -> IF s.out # "ok" THEN "failed" ELSE ""
    [] s.op = "make.content" -> IF s.content # m.bench.items THEN "the content differs from what was added" ELSE ""
    [] s.op = "make.block" ->
         (LET b == BlockFrom(m.bench, s.ctor, s.cat, s.opc, s.kind, s.tn) IN
          IF s.block # b THEN "the block does not hold what it was given" ELSE IF s.subs # Subs(s.ctor) THEN "another number of sub stacks"
          ELSE IF s.argb # <<255>> \o CodeOf(Categories, s.cat).v THEN "another colour" ELSE IF ~(s.category.out = "ok" /\ s.category.cat = s.cat) THEN "another category" ELSE "")
    [] s.op = "make.code" ->
         (IF s.empty # "true" THEN "a new stack is not empty" ELSE IF s.forest # m.bench.made \/ s.walk # m.bench.made THEN "the stack differs from the blocks made"
          ELSE IF s.stored.out # "ok" THEN "cannot be stored" ELSE LET d == Decode(s.stored.flat) IN IF ~d.ok THEN "stored blocks do not decode" ELSE IF Norm(d.v) # Norm(m.bench.made) THEN "stored as another program" ELSE "")
    [] s.op = "make.cat" -> LET r == CategoryAt(s.rgb) IN IF r.ok THEN (IF s.category.out = "ok" /\ s.category.cat = r.v THEN "" ELSE "another category") ELSE IF s.category.out = "err" THEN "" ELSE "made up a category"
    [] s.op = "make.comp" -> IF s.c # NewComp(s.id, s.p, s.type) THEN "the component does not hold what it was given" ELSE ""
    [] s.op = "make.view" -> LET r == NewView(s.id, s.type, s.parent, s.ptype) IN IF s.raw # r THEN "the view does not hold what it was given" ELSE IF ~(s.shown.out = "ok" /\ s.shown.view = ViewOf(r)) THEN "the view shows something else" ELSE ""
    [] s.op = "make.gravity" -> IF s.v # s.n THEN "another value" ELSE IF s.consts # Gravities THEN "another constant" ELSE IF AsSet(s.dirs) # Dirs(s.n) THEN "other directions" ELSE ""
    [] s.op = "make.color" -> IF s.disp # ColorText(s.given) \/ s.debug # ColorText(s.given) THEN "the colour is shown as another one" ELSE ""
    [] s.op = "make.etype" -> IF s.after \notin KeptEvent(s.e, s.event) THEN "the event does not hold what it was given" ELSE ""
    [] s.op = "make.mb" -> IF ~(s.p.id = s.mb.own /\ s.p.words = WordsOf(s.mb.items)) THEN "the moreblock does not hold what it was given" ELSE IF s.code # s.mb.code THEN "code differs" ELSE ""
    [] s.op = "make.list" -> LET r == NameOf({<<"List String", "String">>, <<"List Number", "Number">>}, s.text) IN IF ~r.ok THEN (IF s.out = "ok" THEN "made up a list type" ELSE "") ELSE IF ~(s.out = "ok" /\ s.inner = r.v /\ s.ret = r.v) THEN "another list type" ELSE ""
    [] s.op = "make.rid" -> IF \E i \in 1 .. Len(s.made) : s.full[i] # s.name \/ Drop(s.made[i], {"id"}) # [k |-> "u32", fn |-> s.name, t |-> s.t] THEN "the reference does not hold what it was given"
                            ELSE IF Cardinality({s.made[i].id : i \in 1 .. Len(s.made)}) = 1 THEN "the made up ids are all the same" ELSE ""
    [] s.op = "make.defaults" -> LET f == Fresh(s.name)  d == SelectSeq(<<"blocks", "blocks2", "cont", "vars", "lists", "comps", "events", "mbs", "rfiles", "store", "color", "gravity", "palette", "screen">>, LAMBDA x : s.d[x] # f[x]) IN IF d = <<>> THEN "" ELSE "another default: " \o d[1]
NextBench(s) ==
  CASE s.op = "make.start" -> NoBench [] s.op = "make.text" -> AddItem(m.bench, TextOf(s.text, s.words)) [] s.op = "make.arg" -> AddItem(m.bench, s.item)
    [] s.op = "make.content" -> Finish(m.bench) [] s.op = "make.hold" -> Hold(m.bench) [] s.op = "make.block" -> WithBlock(m.bench, s.ctor, s.cat, s.opc, s.kind, s.tn)
    [] OTHER -> m.bench

(* ---------------------------------------------------------------- one step *)
\* a step that had nothing to work on (an earlier one was rightly refused) says nothing
Verdict(s) ==
  CASE s.out = "none" -> "" [] Is({"C22"}) -> VFault(s) [] s.op = "blocks.enc" -> VEnc(s) [] s.op = "blocks.dec" -> VDec(s)
    [] StartsWith(s.op, "content.") -> VContentOp(s) [] StartsWith(s.op, "tree.") -> VTree(s)
    [] s.op \in {"view.from", "kind.of", "kind.id", "kind.apply"} -> VKind(s)
    [] s.op = "doc.write" -> VWrite(s) [] s.op = "doc.parse" -> VParse(s) [] s.op = "doc.iter" -> VIter(s)
    [] StartsWith(s.op, "res.") -> VStore(s) [] StartsWith(s.op, "rfiles.") -> VFiles(s)
    [] StartsWith(s.op, "crypt.") \/ s.op \in {"fs.read", "fs.list"} -> VCrypt(s)
    [] StartsWith(s.op, "codes.") \/ StartsWith(s.op, "color.") -> VCode(s)
    [] StartsWith(s.op, "sess.") -> VSess(s) [] StartsWith(s.op, "make.") -> VMake(s)
    [] OTHER -> ""
Post0(s) ==
  CASE s.out = "none" -> m [] StartsWith(s.op, "content.") -> [m EXCEPT !.content = s.content]
    [] s.op \in {"tree.load", "tree.build"} -> IF s.out = "ok" THEN [m EXCEPT !.tree = s.tree] ELSE m
    [] s.op = "tree.add" -> [m EXCEPT !.tree = EditAdd(@, s.parent, s.pos, s.view)] [] s.op = "tree.del" -> [m EXCEPT !.tree = EditDel(@, s.id)]
    [] s.op = "tree.set" -> [m EXCEPT !.tree = EditSet(@, s.id, s.set)] [] s.op = "tree.move" -> [m EXCEPT !.tree = EditMove(@, s.id, s.parent, s.pos)]
    [] s.op = "res.new" -> [m EXCEPT !.store = NoStore]
    [] s.op = "res.put" -> IF PutOk(m.store, m.fs, s.id, s.file) THEN [m EXCEPT !.store = Place(@, s.id, s.file, s.t)] ELSE m
    [] s.op = "res.load" -> [m EXCEPT !.store = s.dump]
    [] s.op = "res.remove" -> IF s.out = "ok" THEN [m EXCEPT !.store = TakenFrom(@, s.id, s.got.t)] ELSE m
    [] s.op = "rfiles.from" -> IF s.out = "ok" THEN [m EXCEPT !.files = Map(s.files, Plain4)] ELSE m
    [] s.op = "fs.touch" -> [m EXCEPT !.fs = @ \cup {s.p}, !.disk = Put(@, s.p, <<120>>)] [] s.op = "fs.rm" -> [m EXCEPT !.fs = @ \ {s.p}]
    [] s.op = "fs.write" -> [m EXCEPT !.fs = @ \cup {s.p}, !.disk = Put(@, s.p, s.data)]
    [] s.op = "crypt.encto" -> IF s.out # "ok" THEN m ELSE LET q == IF s.q = "" THEN s.p ELSE s.q IN [m EXCEPT !.fs = @ \cup {q}, !.disk = Put(@, q, Encrypt(m.disk[s.p]))]
    [] StartsWith(s.op, "make.") -> [m EXCEPT !.bench = NextBench(s)]
    [] s.op = "sess.new" -> [m EXCEPT !.api = s.obs, !.auto = FALSE, !.clean = FALSE]
    [] s.op = "sess.edit" -> LET r == EditApi(m.api, s, m.fs) IN IF r.ok THEN [m EXCEPT !.api = r.v, !.clean = FALSE] ELSE m
    [] s.op = "sess.save" -> IF s.out = "ok" THEN [m EXCEPT !.raw = s.raw, !.saved = <<[api |-> StoredApi(m.api), auto |-> m.auto]>>] ELSE m
    [] s.op \in {"sess.setraw", "sess.newraw"} -> IF s.out = "ok" THEN [m EXCEPT !.raw = s.raw, !.saved = <<>>] ELSE m
    [] s.op = "sess.load" -> IF s.out = "ok" THEN [m EXCEPT !.api = s.obs, !.auto = (LoadFiles(s).some = "0"), !.clean = TRUE, !.from = [m.raw EXCEPT !.files = LoadFiles(s)]] ELSE m
    [] OTHER -> m

Post(s) == IF ~Is({"C20"}) \/ s.out = "none" \/ s.op \in {"sess.crypt", "sess.parsed", "sess.obs", "fs.touch"} THEN Post0(s) ELSE [Post0(s) EXCEPT !.base = Base(s)]

Init == t \in 1 .. Len(Traces) /\ k = 0 /\ m = M0 /\ why = ""
Next == /\ why = "" /\ k < Len(Traces[t].steps)
        /\ LET s == Traces[t].steps[k + 1] IN why' = TLCEval(Verdict(s)) /\ m' = IF why' = "" THEN TLCEval(Post(s)) ELSE m
        /\ k' = k + 1 /\ t' = t
\* printed once per trace, when it is over
Report == IF why # "" THEN PrintT("REJECT|" \o ToString(t) \o "|" \o ToString(k) \o "|" \o why)
          ELSE IF k = Len(Traces[t].steps) THEN PrintT("DONE|" \o ToString(t) \o "|" \o ToString(k)) ELSE TRUE
=============================================================================
