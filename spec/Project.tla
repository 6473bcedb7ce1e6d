------------------------------- MODULE Project -------------------------------
(* A whole project.  Three levels:
     raw    : six lexed data files and the resource files given with them (or none)
     parsed : the six data-file models                                       (DataFiles)
     api    : screens, custom views, libraries, resources, ... as shown to a user
   Lift is what loading means, StoredApi what saving may change, EditApi the edits in between. *)
EXTENDS BlockCode, ViewTree, DataFiles, ResStore

AllOk(q) == \A i \in 1 .. Len(q) : q[i].ok
Vals(q) == TLCEval([i \in 1 .. Len(q) |-> q[i].v])
One(q, P(_)) == SelectSeq(q, P)

(* ---------------------------------------------------------------- names *)
RECURSIVE Camel(_, _)
Camel(s, up) == IF s = "" THEN "" ELSE IF Ch(s, 1) = "_" THEN Camel(From(s, 2), TRUE)
                ELSE (IF up THEN UpperCh(Ch(s, 1)) ELSE Ch(s, 1)) \o Camel(From(s, 2), FALSE)
LogicName(layout) == Camel(layout, TRUE) \o "Activity"

(* ---------------------------------------------------------------- events and their code *)
\* the container that holds the code of an event
ContId(et, target, name) ==
  IF et \in {"view", "component"} THEN target \o "_" \o name
  ELSE IF name = "onCreate" THEN "onCreate_initializeLogic" ELSE name \o "_" \o name
MbCont(id) == id \o "_moreBlock"
CodeAt(l, id) == LET q == One(l.conts, LAMBDA c : c.id = id) IN IF q = <<>> THEN Ok(<<>>) ELSE Decode(q[1].flat)
IsOnCreate(e) == e.et = "activity" /\ e.name = "onCreate"
\* an event as declared, without its code
EventOf(e) ==
  LET n == NameOf(EventTypes, e.etype) IN
  IF ~n.ok THEN Bad
  ELSE Ok([name |-> e.name, et |-> n.v, target |-> IF n.v = "activity" THEN "" ELSE e.target, ctype |-> IF n.v = "component" THEN e.ttype ELSE "0", code |-> <<>>])
LiftEvent(l, e) ==
  LET v == EventOf(e) IN IF ~v.ok THEN Bad ELSE
  LET c == CodeAt(l, ContId(v.v.et, v.v.target, v.v.name)) IN IF ~c.ok THEN Bad ELSE Ok([v.v EXCEPT !.code = c.v])
\* onCreate is never declared, its container alone stands for it
EventsIn(l) ==
  LET ev == l.events.l
      declared == \E i \in 1 .. Len(ev) : ev[i].etype = "3" /\ ev[i].name = "onCreate"
      has == \E i \in 1 .. Len(l.conts) : l.conts[i].id = "onCreate_initializeLogic"
  IN (IF has /\ ~declared THEN <<[name |-> "onCreate", etype |-> "3", target |-> "onCreate", ttype |-> "0"]>> ELSE <<>>) \o ev
LiftMb(l, mb) ==
  LET it == ParseItems(mb.words, 1, <<>>, FALSE)  c == CodeAt(l, MbCont(mb.id))
  IN IF it.ok /\ c.ok THEN Ok([id |-> mb.id, own |-> mb.id, items |-> it.v, code |-> c.v]) ELSE Bad
CompOf(c) ==
  LET n == NameOf(Components, c.type) IN
  IF ~n.ok THEN Bad ELSE Ok([id |-> c.id, kind |-> n.v, p |-> IF n.v \in ComponentsWithParam THEN c.p1 ELSE ""])

(* ---------------------------------------------------------------- loading *)
LiftScreen(a, views, logics) ==
  LET name == a.name
      lay == One(views.layouts, LAMBDA x : x.name = name)
      log == One(logics.screens, LAMBDA x : x.name = LogicName(name))
      fab == One(views.fabs, LAMBDA x : x.name = name)
      l == IF log = <<>> THEN NewScreen(LogicName(name)) ELSE log[1]
      tree == Rebuild(IF lay = <<>> THEN <<>> ELSE lay[1].views)
      ev == Map(EventsIn(l), LAMBDA e : LiftEvent(l, e))
      mb == Map(l.mbs.l, LAMBDA x : LiftMb(l, x))
      cs == Map(l.comps.l, CompOf)
  IN IF ~tree.ok \/ ~AllOk(ev) \/ ~AllOk(mb) \/ ~AllOk(cs) THEN Bad
     ELSE Ok([layoutName |-> name, javaName |-> LogicName(name), layout |-> tree.v, vars |-> l.vars.l, lists |-> l.lists.l, mbs |-> Vals(mb), comps |-> Vals(cs),
              events |-> Vals(ev), fab |-> [i \in 1 .. Len(fab) |-> ViewOf(fab[i].view)],
              fullscreenOn |-> a.fullscreen, toolbarOn |-> a.toolbar, drawerOn |-> a.drawer, fabOn |-> a.fab,
              orientation |-> a.orientation, theme |-> a.theme, kbd |-> a.kbd])
LiftCView(a, views) ==
  LET lay == One(views.layouts, LAMBDA x : x.name = a.name) IN IF lay = <<>> THEN Bad ELSE
  LET t == Rebuild(lay[1].views) IN IF t.ok THEN Ok([name |-> a.name, layout |-> t.v]) ELSE Bad
YN(x) == x.useYn \in {"Y", "N"}
LiftLibs(l) ==
  IF ~YN(l.compat) \/ ~YN(l.firebaseDB) \/ ~YN(l.admob) \/ ~YN(l.googleMap) THEN Bad
  ELSE Ok([compat |-> BoolStr(l.compat.useYn = "Y"),
           firebase |-> IF l.firebaseDB.useYn = "N" THEN <<>> ELSE <<[projectId |-> l.firebaseDB.data, appId |-> l.firebaseDB.reserved1, apiKey |-> l.firebaseDB.reserved2, bucket |-> l.firebaseDB.reserved3]>>,
           admob |-> IF l.admob.useYn = "N" THEN <<>> ELSE <<[adUnits |-> l.admob.adUnits, testDevices |-> l.admob.testDevices]>>,
           gmap |-> IF l.googleMap.useYn = "N" THEN <<>> ELSE <<[apiKey |-> l.googleMap.data]>>])
\* files: [some, l]; without any, every resource gets an id made up on the spot
LiftRes(items, files, t) ==
  TLCEval([i \in 1 .. Len(items) |->
     IF files.some = "0" THEN Ok([id |-> items[i].name, file |-> [k |-> "u32", id |-> "*", fn |-> items[i].fullName, t |-> t]])
     ELSE LET f == FileFor(files.l, t, items[i].fullName) IN IF f = <<>> THEN Bad ELSE Ok([id |-> items[i].name, file |-> f[1]])])
MetaOf(p) == [id |-> p.id, appName |-> p.appName, wsName |-> p.wsName, pkgName |-> p.pkgName, days |-> p.days, secs |-> p.secs, swVer |-> p.swVer, verName |-> p.verName, verCode |-> p.verCode]
ColorsOf(p) == [cPrimary |-> p.cPrimary, cPrimaryDark |-> p.cPrimaryDark, cAccent |-> p.cAccent, cNormal |-> p.cNormal, cHighlight |-> p.cHighlight]
\* p: the six models, files: [some, l]
Lift(p, files) ==
  LET sc == Map(p.file.activities, LAMBDA a : LiftScreen(a, p.view, p.logic))
      cv == Map(p.file.customViews, LAMBDA a : LiftCView(a, p.view))
      lb == LiftLibs(p.library)
      im == LiftRes(p.resource.images, files, "Image")
      so == LiftRes(p.resource.sounds, files, "Sound")
      fo == LiftRes(p.resource.fonts, files, "Font")
  IN IF ~AllOk(sc) \/ ~AllOk(cv) \/ ~lb.ok \/ ~AllOk(im) \/ ~AllOk(so) \/ ~AllOk(fo) THEN Bad
     ELSE Ok([meta |-> MetaOf(p.project), colors |-> ColorsOf(p.project), screens |-> Vals(sc), cviews |-> Vals(cv), libs |-> lb.v,
              res |-> [images |-> Vals(im), sounds |-> Vals(so), fonts |-> Vals(fo)],
              icon |-> IF files.some = "0" THEN <<>> ELSE OfType(files.l, "CustomIcon")])
\* a part that two declarations lay claim to: which of them gets it is not said
Claims(l) == Map(EventsIn(l), LAMBDA e : LET v == EventOf(e) IN IF v.ok THEN ContId(v.v.et, v.v.target, v.v.name) ELSE "") \o Map(l.mbs.l, LAMBDA b : MbCont(b.id))
TwiceIn(items) == ~NoDup(Map(items, LAMBDA x : x.fullName)) \/ ~NoDup(Map(items, LAMBDA x : x.name))
ClaimedTwice(p) ==
  \/ ~NoDup(Map(p.file.activities \o p.file.customViews, LAMBDA a : a.name)) \/ ~NoDup(Map(p.file.activities, LAMBDA a : LogicName(a.name)))
  \/ TwiceIn(p.resource.images) \/ TwiceIn(p.resource.sounds) \/ TwiceIn(p.resource.fonts)
  \/ \E i \in 1 .. Len(p.logic.screens) : ~NoDup(Claims(p.logic.screens[i])) \/ ~NoDup(Map(p.logic.screens[i].comps.l, LAMBDA c : c.id))
DocKinds == <<"project", "file", "library", "resource", "view", "logic">>
ReadAll(raw) == TLCEval([k \in Kinds |-> Read(k, raw[k])])
Models(r) == TLCEval([k \in Kinds |-> r[k].v])
DocsSt(r) == WorstOf({r[k].st : k \in Kinds})

(* ---------------------------------------------------------------- what counts as the same project *)
OnCreateFirst(ev) == SelectSeq(ev, IsOnCreate) \o SelectSeq(ev, LAMBDA e : ~IsOnCreate(e))
NormEvent(e) == [e EXCEPT !.code = Norm(@)]
NormScreen(s) == [s EXCEPT !.events = Map(OnCreateFirst(@), NormEvent),
                           !.mbs = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.items = NormItems(@), !.code = Norm(@)]]]
AnyId(f) == IF f.k = "u32" THEN [f EXCEPT !.id = "*"] ELSE f
NormRes(res, auto) == IF auto THEN [l \in DOMAIN res |-> [i \in 1 .. Len(res[l]) |-> [res[l][i] EXCEPT !.file = AnyId(@)]]] ELSE res
NormApi(a, auto) == [a EXCEPT !.screens = Map(@, NormScreen), !.res = NormRes(@, auto)]

\* the project a saved one is read back as: views carry the stored form of their edits
StoredFab(v) == ViewOf([ExpectedRaw(v, "", "-1") EXCEPT !["parent"] = "-"])
StoredScreen(s) == [s EXCEPT !.layout = Stored(@, "root", "0"), !.fab = Map(@, StoredFab)]
StoredApi(a) == [a EXCEPT !.screens = Map(@, StoredScreen), !.cviews = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.layout = Stored(@, "root", "0")]]]

(* ---------------------------------------------------------------- edits *)
\* inserting into a linked map puts the entry last, whether or not the key was there
Upsert(q, e, Key(_)) == Append(SelectSeq(q, LAMBDA x : Key(x) # Key(e)), e)
DropKey(q, k, Key(_)) == SelectSeq(q, LAMBDA x : Key(x) # k)
NameKey(x) == x.name
IdKey(x) == x.id
RemoveIx(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
VarOf(v) == [name |-> v.name, own |-> v.name, type |-> v.type]
MbOf(v) == [id |-> v.id, own |-> v.id, items |-> v.items, code |-> v.code]
TreeEdit(tree, s) ==
  CASE s.edit = "view.add" -> EditAdd(tree, s.parent, s.pos, s.view) [] s.edit = "view.del" -> EditDel(tree, s.id)
    [] s.edit = "view.set" -> EditSet(tree, s.id, s.set) [] s.edit = "view.move" -> EditMove(tree, s.id, s.parent, s.pos)
\* [ok, v]: refused edits leave the project as it is.  Indices are 0-based.
EditApi(a, s, fs) ==
  LET e == s.edit IN
  CASE e = "meta" -> Ok([a EXCEPT !.meta = s.v]) [] e = "colors" -> Ok([a EXCEPT !.colors = s.v]) [] e = "libs" -> Ok([a EXCEPT !.libs = s.v]) [] e = "icon" -> Ok([a EXCEPT !.icon = s.v])
    [] e = "screen.add" -> Ok([a EXCEPT !.screens = Append(@, s.v)]) [] e = "screen.del" -> Ok([a EXCEPT !.screens = RemoveIx(@, s.i + 1)])
    [] e = "screen.flags" -> Ok([a EXCEPT !.screens[s.i + 1] = Over(@, s.v)])
    [] e = "var.add" -> Ok([a EXCEPT !.screens[s.i + 1].vars = Upsert(@, VarOf(s.v), NameKey)]) [] e = "var.del" -> Ok([a EXCEPT !.screens[s.i + 1].vars = DropKey(@, s.name, NameKey)])
    [] e = "list.add" -> Ok([a EXCEPT !.screens[s.i + 1].lists = Upsert(@, VarOf(s.v), NameKey)]) [] e = "list.del" -> Ok([a EXCEPT !.screens[s.i + 1].lists = DropKey(@, s.name, NameKey)])
    [] e = "comp.add" -> Ok([a EXCEPT !.screens[s.i + 1].comps = Upsert(@, s.v, IdKey)]) [] e = "comp.del" -> Ok([a EXCEPT !.screens[s.i + 1].comps = DropKey(@, s.name, IdKey)])
    [] e = "mb.add" -> Ok([a EXCEPT !.screens[s.i + 1].mbs = Upsert(@, MbOf(s.v), IdKey)]) [] e = "mb.del" -> Ok([a EXCEPT !.screens[s.i + 1].mbs = DropKey(@, s.name, IdKey)])
    [] e = "mb.code" -> Ok([a EXCEPT !.screens[s.i + 1].mbs = [n \in 1 .. Len(@) |-> IF @[n].id = s.name THEN [@[n] EXCEPT !.code = s.v] ELSE @[n]]])
    [] e = "ev.add" -> Ok([a EXCEPT !.screens[s.i + 1].events = PlaceAt(@, s.pos, s.v)]) [] e = "ev.del" -> Ok([a EXCEPT !.screens[s.i + 1].events = RemoveIx(@, s.j + 1)])
    [] e = "ev.code" -> Ok([a EXCEPT !.screens[s.i + 1].events[s.j + 1].code = s.v]) [] e = "ev.push" -> Ok([a EXCEPT !.screens[s.i + 1].events[s.j + 1].code = Append(@, s.v)])
    [] e = "fab" -> Ok([a EXCEPT !.screens[s.i + 1].fab = s.v])
    [] e = "cview.add" -> Ok([a EXCEPT !.cviews = Append(@, s.v)]) [] e = "cview.del" -> Ok([a EXCEPT !.cviews = RemoveIx(@, s.i + 1)])
    [] e \in {"view.add", "view.del", "view.set", "view.move"} ->
         IF s.where = "screen" THEN Ok([a EXCEPT !.screens[s.i + 1].layout = TreeEdit(@, s)]) ELSE Ok([a EXCEPT !.cviews[s.i + 1].layout = TreeEdit(@, s)])
    [] e = "res.put" -> IF PutOk(a.res, fs, s.id, s.file) THEN Ok([a EXCEPT !.res = Place(@, s.id, s.file, s.t)]) ELSE Bad
    [] e = "res.del" -> IF At_(a.res, s.id) # <<>> THEN Ok([a EXCEPT !.res = IF "gone" \in DOMAIN s THEN TakenFrom(@, s.id, s.gone.t) ELSE Without(@, s.id)]) ELSE Bad

\* the data files an edit may change: everything else stays as it is, byte for byte
Affects(s) ==
  CASE s.edit \in {"meta", "colors", "icon"} -> {"project"} [] s.edit = "libs" -> {"library"} [] s.edit \in {"res.put", "res.del"} -> {"resource"}
    [] s.edit \in {"screen.add", "screen.del"} -> {"file", "view", "logic"} [] s.edit = "screen.flags" -> {"file"}
    [] s.edit \in {"cview.add", "cview.del"} -> {"file", "view"} [] s.edit \in {"fab", "view.add", "view.del", "view.set", "view.move"} -> {"view"}
    [] OTHER -> {"logic"}

(* ---------------------------------------------------------------- saving *)
\* every file a saved project has to carry along
FilesToSave(a) == AsSet(a.icon) \cup UNION {{a.res[l][i].file : i \in 1 .. Len(a.res[l])} : l \in DOMAIN a.res}

\* the writer's design: the six models a project is saved as
DeclaredEvents(ev) == SelectSeq(ev, LAMBDA e : ~IsOnCreate(e))
LowerEvent(e) == [name |-> e.name, etype |-> CodeOf(EventTypes, e.et).v, target |-> IF e.et = "activity" THEN e.name ELSE e.target, ttype |-> IF e.et = "component" THEN e.ctype ELSE "0"]
LowerComp(c) == [id |-> c.id, p1 |-> c.p, p2 |-> "", p3 |-> "", type |-> CodeOf(Components, c.kind).v]
LowerMb(m) == [id |-> m.id, own |-> m.id, spec |-> FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o " " \o y, "", WordsOf(m.items)), words |-> WordsOf(m.items)]
Pool(q) == [some |-> "1", l |-> q]
LowerLogic(s) ==
  [name |-> s.javaName, own |-> s.javaName,
   conts |-> Map(s.events, LAMBDA e : [id |-> ContId(e.et, e.target, e.name), flat |-> Encode(e.code)]) \o Map(s.mbs, LAMBDA m : [id |-> MbCont(m.id), flat |-> Encode(m.code)]),
   vars |-> Pool(s.vars), lists |-> Pool(s.lists), comps |-> Pool(Map(s.comps, LowerComp)), events |-> Pool(Map(DeclaredEvents(s.events), LowerEvent)), mbs |-> Pool(Map(s.mbs, LowerMb))]
LowerFile(s) == [name |-> s.layoutName, ftype |-> "Activity", kbd |-> s.kbd, toolbar |-> s.toolbarOn, fullscreen |-> s.fullscreenOn, drawer |-> s.drawerOn, fab |-> s.fabOn, orientation |-> s.orientation, theme |-> s.theme]
LowerCView(c) == [name |-> c.name, ftype |-> "CustomView", kbd |-> "Unspecified", toolbar |-> "false", fullscreen |-> "false", drawer |-> "false", fab |-> "false", orientation |-> "Both", theme |-> "None"]
NoLib(t) == [adUnits |-> <<>>, data |-> "", libType |-> t, reserved1 |-> "", reserved2 |-> "", reserved3 |-> "", testDevices |-> <<>>, useYn |-> "N"]
LowerLibs(l) ==
  [firebaseDB |-> IF l.firebase = <<>> THEN NoLib("0") ELSE [NoLib("0") EXCEPT !.useYn = "Y", !.data = l.firebase[1].projectId, !.reserved1 = l.firebase[1].appId, !.reserved2 = l.firebase[1].apiKey, !.reserved3 = l.firebase[1].bucket],
   compat |-> [NoLib("1") EXCEPT !.useYn = IF l.compat = "true" THEN "Y" ELSE "N"],
   admob |-> IF l.admob = <<>> THEN NoLib("2") ELSE [NoLib("2") EXCEPT !.useYn = "Y", !.adUnits = l.admob[1].adUnits, !.testDevices = l.admob[1].testDevices],
   googleMap |-> IF l.gmap = <<>> THEN NoLib("3") ELSE [NoLib("3") EXCEPT !.useYn = "Y", !.data = l.gmap[1].apiKey]]
LowerRes(q) == [i \in 1 .. Len(q) |-> [fullName |-> FullName(q[i].file), name |-> q[i].id, type |-> "1"]]
RawFab(v) == [ExpectedRaw(v, "", "-1") EXCEPT !["parent"] = "-"]
Lower(a) ==
  [project |-> a.meta @@ a.colors @@ ("customIcon" :> BoolStr(a.icon # <<>>)),
   file |-> [activities |-> Map(a.screens, LowerFile), customViews |-> Map(a.cviews, LowerCView)],
   library |-> LowerLibs(a.libs),
   resource |-> [images |-> LowerRes(a.res.images), sounds |-> LowerRes(a.res.sounds), fonts |-> LowerRes(a.res.fonts)],
   view |-> [layouts |-> Map(a.screens, LAMBDA s : [name |-> s.layoutName, views |-> Flatten(s.layout, "root", "0")]) \o Map(a.cviews, LAMBDA c : [name |-> c.name, views |-> Flatten(c.layout, "root", "0")]),
             fabs |-> Flat(Map(a.screens, LAMBDA s : Map(s.fab, LAMBDA v : [name |-> s.layoutName, view |-> RawFab(v)])))],
   logic |-> [screens |-> Map(a.screens, LowerLogic)]]
SavedFiles(a, auto) == IF auto THEN [some |-> "0", l |-> <<>>] ELSE [some |-> "1", l |-> SetToSeq(FilesToSave(a))]
\* the whole round trip, within the specification
RoundTrip(a, auto) ==
  LET m == Lower(a)  r == TLCEval([k \in Kinds |-> Read(k, Write(k, m[k]))])  l == Lift(Models(r), SavedFiles(a, auto))
  IN DocsSt(r) = "ok" /\ l.ok /\ NormApi(l.v, auto) = NormApi(StoredApi(a), auto)
=============================================================================
