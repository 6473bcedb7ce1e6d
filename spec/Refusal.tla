------------------------------- MODULE Refusal -------------------------------
(* What a refusal may point at.  An error is shown as a sequence of frames, outermost first:
     frame : [k |-> kind, ...fields]      (see harness/src/fault.rs)
   An operator here gives the *set* of frame sequences that name something really wrong with an
   input; where several things are wrong any of them may be named.  A sequence is matched as a
   prefix, so <<>> says that the format leaves open what is reported, and {} that nothing is wrong. *)
EXTENDS Project

Open == {<<>>}
Under(frame, S) == {<<frame>> \o f : f \in S}
S_(n) == ToString(n)

(* ---------------------------------------------------------------- single entries *)
SmallNat(s) == IsDigits(s) /\ DigLE(StripZeros(s), "255")
VarFault(pool, t) ==
  IF t.k # "text" THEN Open
  ELSE IF t.c # "1" THEN {<<IF pool = "vars" THEN [k |-> "var.colon", content |-> t.a] ELSE [k |-> "list.colon"]>>}
  ELSE IF SmallNat(t.a) THEN {<<[k |-> IF pool = "vars" THEN "var.type" ELSE "list.type"], [k |-> "vt", value |-> StripZeros(t.a)]>>}
  ELSE {<<IF pool = "vars" THEN [k |-> "var.int", content |-> t.a] ELSE [k |-> "list.int"]>>}
MbFault(t) == IF t.k # "text" THEN Open ELSE {<<[k |-> "mb.colon", content |-> t.a]>>}
EntryFault(pool, t) == CASE pool \in {"vars", "lists"} -> VarFault(pool, t) [] pool = "mbs" -> MbFault(t) [] OTHER -> Open
\* the n-th entry (from 0) of a run of them, at line i
InPool(pool, t, n, i) == IF pool = "" THEN {<<[k |-> "blocks", count |-> S_(n)]>>} ELSE Under([k |-> "pool", count |-> S_(n), at |-> i], EntryFault(pool, t))

(* ---------------------------------------------------------------- data files: the first line that is wrong *)
RECURSIVE SectionFault(_, _, _, _), LibFault(_, _, _), ViewFault(_, _, _, _), LogicFault(_, _, _)
SectionFault(lines, i, sec, which) ==
  IF i > Len(lines) THEN {}
  ELSE LET t == lines[i]  heads == IF which = "file" THEN {"activity", "customview"} ELSE {"images", "sounds", "fonts"} IN
    IF t.k = "blank" THEN SectionFault(lines, i + 1, sec, which)
    ELSE IF t.k = "head" /\ t.h \in heads THEN SectionFault(lines, i + 1, t.h, which)
    ELSE IF sec = "" THEN Open
    ELSE LET x == ListItem(which, t).st IN
      IF x = "ok" THEN SectionFault(lines, i + 1, sec, which)
      ELSE IF x # "err" THEN Open
      ELSE IF which = "file" THEN {<<[k |-> "file.item", line |-> S_(i - 1), at |-> i]>>}
      ELSE {<<[k |-> "resource.item", line |-> S_(i - 1), section |-> sec]>>}
LibFault(lines, i, got) ==
  IF i > Len(lines) THEN {<<[k |-> "library.missing", header |-> "@" \o h]>> : h \in LibHeads \ got}
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN LibFault(lines, i + 1, got)
    ELSE IF ~(t.k = "head" /\ t.h \in LibHeads) THEN Open
    ELSE IF i = Len(lines) THEN {<<[k |-> "library.eof", header |-> "@" \o t.h]>>}
    ELSE LET x == LibItem(lines[i + 1]).st IN
      IF x = "ok" THEN LibFault(lines, i + 2, got \cup {t.h})
      ELSE IF x # "err" THEN Open ELSE {<<[k |-> "library.item", header |-> "@" \o t.h, line |-> S_(i - 1)]>>}
\* sec: <<>> outside, or <<screen, line of its header>>; before: the view above within the layout
ViewFault(lines, i, sec, before) ==
  IF i > Len(lines) THEN {}
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN ViewFault(lines, i + 1, <<>>, "-")
    ELSE IF sec # <<>> THEN
      LET x == ViewItem(t) IN
      IF x.st = "ok" THEN ViewFault(lines, i + 1, sec, "=" \o x.v["id"])
      ELSE IF x.st # "err" THEN Open
      ELSE {<<[k |-> "view.layout", screen |-> sec[1], cont |-> "xml"], [k |-> "layout", line |-> S_(i - sec[2] - 1), at |-> i, before |-> before]>>}
    ELSE IF t.k # "head" THEN Open
    ELSE LET d == Dot(t.h)  n == SubSeq(t.h, 1, d - 1)  ext == From(t.h, d + 1) IN
      IF d = 0 THEN {<<[k |-> "view.header", line |-> S_(i), at |-> i]>>}
      ELSE IF ext = "xml" THEN ViewFault(lines, i + 1, <<n, i>>, "-")
      ELSE IF ext # "xml_fab" THEN Open
      ELSE IF i = Len(lines) THEN {<<[k |-> "view.eof", screen |-> n, line |-> S_(i + 1)]>>}
      ELSE LET x == ViewItem(lines[i + 1]).st IN
        IF x = "ok" THEN ViewFault(lines, i + 2, <<>>, "-") ELSE IF x # "err" THEN Open
        ELSE {<<[k |-> "view.fab", screen |-> n, line |-> S_(i + 1), at |-> i + 1]>>}
\* sec: <<>> outside, or <<screen, section, line of its header>>
LogicFault(lines, i, sec) ==
  IF i > Len(lines) THEN {}
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN LogicFault(lines, i + 1, <<>>)
    ELSE IF sec = <<>> THEN
      IF t.k # "head" THEN Open
      ELSE LET h == LogicHead(t.h) IN
        IF ~h.ok THEN {<<[k |-> "logic.header", line |-> S_(i - 1)], [k |-> "head.cont"]>>} ELSE LogicFault(lines, i + 1, <<h.v[1], h.v[2], i>>)
    ELSE LET pool == PoolOf(sec[2])  x == LogicItem(pool, t).st
             w == IF pool = "" THEN [k |-> "logic.blocks", screen |-> sec[1], cont |-> sec[2], line |-> S_(sec[3] - 1)] ELSE [k |-> "logic." \o pool, screen |-> sec[1], line |-> S_(sec[3] - 1)]
         IN IF x = "ok" THEN LogicFault(lines, i + 1, sec) ELSE IF x # "err" THEN Open ELSE Under(w, InPool(pool, t, i - sec[3] - 1, i))
(* pieces on their own *)
PoolName == [varPool |-> "vars", listPool |-> "lists", compPool |-> "comps", mbPool |-> "mbs", eventPool |-> "events", blocks |-> ""]
RunFault(kind, lines) ==
  LET st == [i \in 1 .. RunLen(lines) |-> ReadItem(ItemOf[kind], lines[i]).st]
      odd == {i \in DOMAIN st : st[i] # "ok"}
      i == CHOOSE x \in odd : \A y \in odd : x <= y
  IN IF odd = {} THEN {} ELSE IF st[i] # "err" THEN Open
     ELSE IF kind = "layout" THEN {<<[k |-> "layout", line |-> S_(i - 1), at |-> i, before |-> IF i = 1 THEN "-" ELSE "=" \o ViewItem(lines[i - 1]).v["id"]]>>}
     ELSE InPool(PoolName[kind], lines[i], i - 1, i)
PieceFault(kind, lines) ==
  IF kind \in Runs THEN RunFault(kind, lines)
  ELSE CASE kind = "varItem" -> VarFault("vars", lines[1]) [] kind = "listItem" -> VarFault("lists", lines[1]) [] kind = "mbItem" -> MbFault(lines[1])
         [] kind = "header" -> (IF lines[1].k # "head" THEN {<<[k |-> "head.at"]>>} ELSE {<<[k |-> "head.cont"]>>})
         [] OTHER -> Open
DocFault(kind, lines) ==
  IF Read(kind, lines).st # "err" THEN (IF Read(kind, lines).st = "ok" THEN {} ELSE Open)
  ELSE CASE kind = "project" -> Open [] kind \in {"file", "resource"} -> SectionFault(lines, 1, "", kind) [] kind = "library" -> LibFault(lines, 1, {})
         [] kind = "view" -> ViewFault(lines, 1, <<>>, "-") [] kind = "logic" -> LogicFault(lines, 1, <<>>) [] OTHER -> PieceFault(kind, lines)

(* ---------------------------------------------------------------- contents *)
ArgFault(k, p) ==
  IF p.rk = "bad" THEN {<<[k |-> "c.badid", value |-> p.s]>>}
  ELSE IF p.rk = "ref" \/ k \in {"s", "m"} \/ p.s = "" THEN {}
  ELSE IF k = "d" THEN (IF p.num = "1" THEN {} ELSE {<<[k |-> "c.number", value |-> p.s]>>})
  ELSE IF p.s \in {"true", "false"} THEN {} ELSE {<<[k |-> "c.bool", value |-> p.s]>>}
RECURSIVE WordsFault(_, _, _, _), FillFault(_, _)
\* the first word that is wrong; fill = FALSE: arguments are left empty
WordsFault(words, i, params, fill) ==
  IF i > Len(words) THEN {}
  ELSE IF ~IsParam(words[i]) THEN WordsFault(words, i + 1, params, fill)
  ELSE IF ~GoodParam(words[i]) THEN {<<[k |-> "c.unknown", name |-> ParamKind(words[i]), full |-> words[i]]>>}
  ELSE IF ~fill THEN WordsFault(words, i + 1, params, fill)
  ELSE IF params = <<>> THEN {<<[k |-> "c.ranout"]>>}
  ELSE LET a == ArgFault(ParamKind(words[i]), Head(params)) IN IF a # {} THEN a ELSE WordsFault(words, i + 1, Tail(params), fill)
FillFault(items, params) ==
  IF items = <<>> THEN {}
  ELSE LET it == Head(items) IN
    IF it.k = "text" \/ it.vk # "empty" THEN FillFault(Tail(items), params)
    ELSE IF params = <<>> THEN {<<[k |-> "c.ranout"]>>}
    ELSE LET a == ArgFault(it.k, Head(params)) IN IF a # {} THEN a ELSE FillFault(Tail(items), Tail(params))
PlugFault(items, have) == {<<[k |-> "c.notfound", id |-> items[i].v]>> : i \in {n \in 1 .. Len(items) : items[n].vk = "ph" /\ \A h \in 1 .. Len(have) : have[h].id # items[n].v}}

(* ---------------------------------------------------------------- block code *)
\* ids that are pointed at more than once: whoever comes second finds nothing
Twice(flat) == LET all == Flat([i \in 1 .. Len(flat) |-> Refs(flat[i])]) \o <<flat[1].idn>> IN {x \in Elems(all) : Cardinality({i \in 1 .. Len(all) : all[i] = x}) > 1}
RefsUsed(words, params) == LET n == ParamsIn(words)  l == IF n < Len(params) THEN n ELSE Len(params) IN {params[i].r : i \in {x \in 1 .. l : params[x].rk = "ref"}}
RECURSIVE BlockF(_, _, _, _), ChainF(_, _, _, _)
\* up: the blocks above this one
BlockF(id, m, two, up) ==
  LET gone == {<<[k |-> "b.notfound", id |-> IdText(id)]>>} IN
  IF id \notin DOMAIN m \/ id \in up THEN gone
  ELSE LET f == m[id]  u == up \cup {id}
           Stack(n, p) == IF p < 0 THEN {} ELSE Under([k |-> n, id |-> IdText(id), ptr |-> IdText(p)], ChainF(p, m, two, u))
           args == {r \in RefsUsed(f.words, f.params) : r \in two \/ BlockF(r, m, two, u) # {}}
           local == WordsFault(f.words, 1, f.params, TRUE) \cup {<<[k |-> "c.notfound", id |-> IdText(r)]>> : r \in args}
           kd == BlockKind(f.type, f.tn)
       IN (IF id \in two THEN gone ELSE {}) \cup Stack("b.ss1", f.ss1) \cup Stack("b.ss2", f.ss2) \cup Under([k |-> "b.content"], local)
          \cup (IF kd.ok THEN {} ELSE {<<[k |-> "b.type"], [k |-> "btype", type |-> f.type, tn |-> f.tn]>>})
ChainF(id, m, two, up) ==
  BlockF(id, m, two, up) \cup (IF id \notin DOMAIN m \/ id \in up THEN {} ELSE IF m[id].next < 0 THEN {} ELSE ChainF(m[id].next, m, two, up \cup {id}))
FlatFault(flat) ==
  LET bad == {i \in 1 .. Len(flat) : flat[i].idok # "1"}  ids == [i \in 1 .. Len(flat) |-> flat[i].idn] IN
  IF flat = <<>> THEN {}
  ELSE IF bad # {} THEN {<<[k |-> "b.badid", id |-> flat[i].id]>> : i \in bad}
  ELSE IF ~NoDup(ids) THEN Open
  ELSE ChainF(ids[1], [x \in Elems(ids) |-> flat[CHOOSE i \in 1 .. Len(flat) : ids[i] = x]], Twice(flat), {})

(* ---------------------------------------------------------------- layouts: the first view whose parent is not there *)
RECURSIVE TreeF(_, _, _)
TreeF(flat, i, have) ==
  IF i > Len(flat) THEN {}
  ELSE LET v == flat[i] IN
    IF v["parent"] = "-" THEN {<<[k |-> "tree.noparent", id |-> v["id"]]>>}
    ELSE IF v["parent"] = "=root" \/ From(v["parent"], 2) \in have THEN TreeF(flat, i + 1, have \cup {v["id"]})
    ELSE {<<[k |-> "tree.parent", id |-> v["id"], parent |-> From(v["parent"], 2)]>>}
TreeFault(flat) == TreeF(flat, 1, {})
KindFault(raw) ==
  LET n == NameOf(ViewCodes, raw["type"]) IN
  IF ~n.ok THEN {<<[k |-> "kind.type", type |-> raw["type"], id |-> raw["id"]]>>}
  ELSE IF n.v \in {"ImageView", "Fab"} /\ raw["image.resName"] = "-" THEN {<<[k |-> "kind.res", id |-> raw["id"]]>>} ELSE {}
CompFault(c) == IF NameOf(Components, c.type).ok THEN {} ELSE {<<[k |-> "comp", type |-> c.type, id |-> c.id]>>}
EventFault(e) == IF NameOf(EventTypes, e.etype).ok THEN {} ELSE {<<[k |-> "event", type |-> e.etype, name |-> e.name]>>}

(* ---------------------------------------------------------------- projects: everything that does not fit together *)
All(q, F(_)) == UNION {F(q[i]) : i \in 1 .. Len(q)}
ContFault(l, id) == Under([k |-> "s.blocks", cont |-> id], All(One(l.conts, LAMBDA c : c.id = id), LAMBDA c : FlatFault(c.flat)))
ScreenFault(a, views, logics) ==
  LET log == One(logics.screens, LAMBDA x : x.name = LogicName(a.name))
      lay == One(views.layouts, LAMBDA x : x.name = a.name)
      l == IF log = <<>> THEN NewScreen(LogicName(a.name)) ELSE log[1]
      MbF(mb) == Under([k |-> "s.mb", id |-> mb.id], WordsFault(mb.words, 1, <<>>, FALSE)) \cup ContFault(l, MbCont(mb.id))
      EvF(e) == LET v == EventOf(e) IN IF v.ok THEN ContFault(l, ContId(v.v.et, v.v.target, v.v.name)) ELSE Under([k |-> "s.event"], EventFault(e))
  IN Under([k |-> "p.screen", java |-> LogicName(a.name), layout |-> a.name],
       Under([k |-> "s.layout"], All(lay, LAMBDA x : TreeFault(x.views))) \cup All(l.mbs.l, MbF) \cup All(EventsIn(l), EvF) \cup Under([k |-> "s.comp"], All(l.comps.l, CompFault)))
CViewFault(a, views) ==
  LET lay == One(views.layouts, LAMBDA x : x.name = a.name) IN
  IF lay = <<>> THEN {<<[k |-> "p.cvmissing", id |-> a.name]>>} ELSE Under([k |-> "p.cvlayout", id |-> a.name], TreeFault(lay[1].views))
LibName == [compat |-> "compat", firebaseDB |-> "firebase", admob |-> "admob", googleMap |-> "google map"]
YnFault(l) == {<<[k |-> "p.yn", lib |-> LibName[x], value |-> l[x].useYn]>> : x \in {y \in DOMAIN LibName : ~YN(l[y])}}
ResFault(items, files, t) ==
  IF files.some = "0" THEN {}
  ELSE {<<[k |-> "p.res", name |-> items[i].name, full |-> items[i].fullName, t |-> t]>> : i \in {n \in 1 .. Len(items) : FileFor(files.l, t, items[n].fullName) = <<>>}}
LiftFault(p, files) ==
  All(p.file.activities, LAMBDA a : ScreenFault(a, p.view, p.logic)) \cup All(p.file.customViews, LAMBDA a : CViewFault(a, p.view)) \cup YnFault(p.library)
  \cup ResFault(p.resource.images, files, "Image") \cup ResFault(p.resource.sounds, files, "Sound") \cup ResFault(p.resource.fonts, files, "Font")

(* ---------------------------------------------------------------- resources *)
FilesFault(list, fs) ==
  UNION {IF list[i].k # "path" THEN {} ELSE IF list[i].id \notin fs THEN {<<[k |-> "r.missing", p |-> list[i].id]>>}
         ELSE IF DirType(list[i].id) = "" THEN {<<[k |-> "r.place", p |-> list[i].id]>>} ELSE {} : i \in 1 .. Len(list)}
PutFault(store, fs, id, f) ==
  (IF At_(store, id) # <<>> THEN {<<[k |-> "r.taken", id |-> id]>>} ELSE {}) \cup (IF f.k = "path" /\ f.id \notin fs THEN {<<[k |-> "r.missing", p |-> f.id]>>} ELSE {})

(* ---------------------------------------------------------------- is a refusal one of these? *)
\* the fields a message has to spell out
Said == [x \in {"file.item", "library.eof", "library.item", "library.missing", "view.header", "view.layout", "view.fab", "view.eof", "layout", "logic.vars", "logic.lists", "logic.comps",
                "logic.events", "logic.mbs", "logic.header", "logic.blocks", "pool", "resource.item", "var.int", "mb.colon", "vt", "b.badid", "b.notfound", "b.ss1", "b.ss2", "btype",
                "c.notfound", "c.badid", "c.unknown", "c.number", "c.bool", "comp", "event", "kind.type", "kind.res", "tree.noparent", "tree.parent", "s.mb", "s.blocks",
                "p.screen", "p.cvmissing", "p.cvlayout", "p.yn", "p.res", "r.taken", "r.missing", "r.place"} |->
  CASE x \in {"file.item", "view.header", "layout", "resource.item", "logic.header"} -> {"line"}
    [] x \in {"library.eof", "library.missing"} -> {"header"} [] x = "library.item" -> {"header", "line"}
    [] x = "view.layout" -> {"screen", "cont"} [] x = "view.fab" -> {"screen"} [] x = "view.eof" -> {"screen", "line"}
    [] x \in {"logic.vars", "logic.lists", "logic.comps", "logic.events", "logic.mbs"} -> {"screen", "line"} [] x = "logic.blocks" -> {"screen", "cont", "line"}
    [] x = "pool" -> {"count"} [] x \in {"var.int", "mb.colon"} -> {"content"} [] x \in {"vt", "c.badid", "c.number", "c.bool"} -> {"value"}
    [] x \in {"b.badid", "b.notfound", "b.ss1", "b.ss2", "c.notfound", "kind.res", "tree.noparent", "s.mb", "p.cvmissing", "p.cvlayout", "r.taken"} -> {"id"}
    [] x = "btype" -> {"type", "tn"} [] x = "c.unknown" -> {"name"} [] x \in {"comp", "kind.type"} -> {"type", "id"} [] x = "event" -> {"type", "name"}
    [] x = "tree.parent" -> {"id", "parent"} [] x = "s.blocks" -> {"cont"} [] x = "p.screen" -> {"layout"} [] x = "p.yn" -> {"lib", "value"} [] x = "p.res" -> {"name"}
    [] x \in {"r.missing", "r.place"} -> {"p"}]
SaysSo(f) == f.k \in DOMAIN Said => \A x \in Said[f.k] : f[x] = "" \/ IndexOf(f.msg, f[x]) # 0
\* the errors that are there because of another one lead to it, so that the whole chain can be shown
Wraps == {"b.badid", "b.content", "b.ss1", "b.ss2", "b.type", "blocks", "file.item", "layout", "library.item", "list.int", "list.type", "logic.blocks", "logic.comps", "logic.events", "logic.header", "logic.lists",
          "logic.mbs", "logic.vars", "p.cvlayout", "p.screen", "pool", "resource.item", "s.blocks", "s.comp", "s.event", "s.layout", "s.mb", "var.int", "var.type", "view.fab", "view.layout", "x.dec", "x.io", "x.utf8"}
Chained(fault) == \A i \in 1 .. Len(fault) : (fault[i].k \in Wraps => fault[i].src # "-") /\ (i < Len(fault) => fault[i].src = "=" \o fault[i + 1].msg)
SameFrame(p, f) == p.k = f.k /\ \A x \in DOMAIN p : IF x = "at" THEN p.at \in Elems(f.at) ELSE p[x] = f[x]
Points(p, fault) == Len(p) <= Len(fault) /\ \A i \in 1 .. Len(p) : SameFrame(p[i], fault[i])
=============================================================================
