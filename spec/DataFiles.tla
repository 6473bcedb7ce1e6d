------------------------------ MODULE DataFiles ------------------------------
(* The six data files as line grammars over tokens (see harness/src/lex.rs for the lexing).
     token : [k |-> "blank"] | [k |-> "head", h] | [k |-> "text", a, c, b, w] | [k |-> "json", j, l, aux]
   A reading is [st, v]:
     "ok"   the text is well formed and means v: a reader has to return exactly v
     "may"  the text has lines outside any section (or the like): refused, or read as v
     "err"  the text is malformed: a reader has to refuse it
     "any"  the format says nothing (duplicate sections or names, ...) *)
EXTENDS Codes

Rank == [ok |-> 0, may |-> 1, err |-> 2, any |-> 3]
Worst(a, b) == IF Rank[a] >= Rank[b] THEN a ELSE b
RECURSIVE WorstOf(_)
WorstOf(S) == IF S = {} THEN "ok" ELSE LET x == CHOOSE y \in S : TRUE IN Worst(x, WorstOf(S \ {x}))
R(st, v) == [st |-> st, v |-> v]

(* ---------------------------------------------------------------- scalars *)
Tag(x) == IF Len(x) < 2 THEN "" ELSE SubSeq(x, 1, 2)
Val(x) == From(x, 3)
IntIn(x, neg, pos, Conv(_)) == IF Tag(x) = "n:" /\ InBounds(Val(x), neg, pos) THEN R("ok", Conv(Val(x))) ELSE R("err", "")
Same(s) == s
\* is s the decimal text of an integer?
IsInt(s) == IsDigits(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsDigits(From(s, 2)))
FromTable(tbl, x) == LET n == NameOf(tbl, x) IN IF n.ok THEN R("ok", n.v) ELSE R("err", "")
\* one field: ty names its representation, x is the typed scalar or "" when the key is absent
Field(ty, x) ==
  CASE ty = "str"  -> IF Tag(x) = "s:" THEN R("ok", Val(x)) ELSE R("err", "")
    [] ty = "ostr" -> IF x = "" \/ Tag(x) = "z:" THEN R("ok", "-") ELSE IF Tag(x) = "s:" THEN R("ok", "=" \o Val(x)) ELSE R("err", "")
    [] ty = "u8"   -> IntIn(x, "0", "255", Same)
    [] ty = "u32"  -> IntIn(x, "0", "4294967295", Same)
    [] ty = "i8"   -> IntIn(x, "128", "127", Same)
    [] ty = "i16"  -> IntIn(x, "32768", "32767", Same)
    [] ty = "i32"  -> IntIn(x, "2147483648", "2147483647", Same)
    [] ty = "f32"  -> IF Tag(x) \in {"n:", "f:"} THEN R("ok", Val(x)) ELSE R("err", "")
    [] ty = "b01"  -> IF x \in {"n:0", "n:1"} THEN R("ok", IF x = "n:1" THEN "true" ELSE "false")
                      ELSE IF Tag(x) = "n:" /\ InBounds(Val(x), "0", "255") THEN R("any", "") ELSE R("err", "")
    [] ty = "bstr" -> IF x \in {"s:true", "s:false"} THEN R("ok", Val(x)) ELSE R("err", "")
    [] ty = "bool" -> IF Tag(x) = "b:" THEN R("ok", Val(x)) ELSE R("err", "")
    [] ty = "color" -> IF Tag(x) \in {"n:", "f:"} THEN (IF IsInt(Val(x)) /\ InBounds(Val(x), "2147483648", "2147483647") THEN R("ok", Val(x)) ELSE R("any", "")) ELSE R("err", "")
    [] ty = "size" -> IntIn(x, "2147483648", "2147483647", LAMBDA s : IF s = "-2" THEN "match" ELSE IF s = "-1" THEN "wrap" ELSE s)
    [] ty = "nstr" -> IF Tag(x) # "s:" THEN R("err", "")
                      ELSE IF IsDigits(Val(x)) /\ DigLE(StripZeros(Val(x)), "65535") THEN (IF StripZeros(Val(x)) = Val(x) THEN R("ok", Val(x)) ELSE R("may", StripZeros(Val(x))))
                      ELSE IF Len(Val(x)) > 1 /\ Ch(Val(x), 1) = "+" THEN R("any", "") ELSE R("err", "")
    [] ty = "scale" -> IF Tag(x) = "s:" THEN FromTable(ScaleTypes, Val(x)) ELSE R("err", "")
    [] ty \in DOMAIN Enums -> IF Tag(x) = "n:" THEN FromTable(Enums[ty], Val(x)) ELSE R("err", "")

At(j, key) == IF key \in DOMAIN j THEN j[key] ELSE ""
\* a schema is a function: model key -> <<file key, type>>
Rec(schema, j) ==
  LET f == TLCEval([k \in DOMAIN schema |-> Field(schema[k][2], At(j, schema[k][1]))])
  IN R(WorstOf({f[k].st : k \in DOMAIN schema}), TLCEval([k \in DOMAIN schema |-> f[k].v]))

(* ---------------------------------------------------------------- the written form of a scalar *)
Unfield(ty, v) ==
  CASE ty \in {"str", "bstr", "nstr"} -> "s:" \o v
    [] ty = "ostr" -> IF v = "-" THEN "" ELSE "s:" \o From(v, 2)
    [] ty \in {"u8", "u32", "i8", "i16", "i32", "color"} -> "n:" \o v
    [] ty = "f32" -> (IF IsInt(v) THEN "n:" ELSE "f:") \o v
    [] ty = "b01" -> IF v = "true" THEN "n:1" ELSE "n:0"
    [] ty = "bool" -> "b:" \o v
    [] ty = "size" -> "n:" \o (IF v = "match" THEN "-2" ELSE IF v = "wrap" THEN "-1" ELSE v)
    [] ty = "scale" -> "s:" \o CodeOf(ScaleTypes, v).v
    [] ty \in DOMAIN Enums -> "n:" \o CodeOf(Enums[ty], v).v
NoAux == [words |-> <<"">>, idn |-> -1, idok |-> "0", next |-> 0, ss1 |-> 0, ss2 |-> 0]
Unrec(schema, v) ==
  LET all == {k \in DOMAIN schema : Unfield(schema[k][2], v[k]) # ""}
  IN TLCEval([fk \in {schema[k][1] : k \in all} \cup {"_"} |-> IF fk = "_" THEN "" ELSE LET k == CHOOSE x \in all : schema[x][1] = fk IN Unfield(schema[k][2], v[k])])
JLine(j, l, aux) == [k |-> "json", j |-> j, l |-> l, aux |-> aux]
NoLists == ("_" :> <<>>)
Line(schema, v) == JLine(Unrec(schema, v), NoLists, NoAux)
HeadLine(h) == [k |-> "head", h |-> h]
BlankLine == [k |-> "blank"]

(* ---------------------------------------------------------------- schemas *)
ProjectSchema == [
  id |-> <<"sc_id", "nstr">>, appName |-> <<"my_app_name", "str">>, wsName |-> <<"my_ws_name", "str">>, pkgName |-> <<"my_sc_pkg_name", "str">>,
  verCode |-> <<"sc_ver_code", "nstr">>, verName |-> <<"sc_ver_name", "str">>, date |-> <<"my_sc_reg_dt", "str">>, customIcon |-> <<"custom_icon", "bool">>,
  cPrimary |-> <<"color_primary", "color">>, cPrimaryDark |-> <<"color_primary_dark", "color">>, cAccent |-> <<"color_accent", "color">>,
  cNormal |-> <<"color_control_normal", "color">>, cHighlight |-> <<"color_control_highlight", "color">>, swVer |-> <<"sketchware_ver", "u8">>]
FileSchema == [name |-> <<"fileName", "str">>, ftype |-> <<"fileType", "ftype">>, kbd |-> <<"keyboardSetting", "kbd">>, opts |-> <<"options", "u8">>,
  orientation |-> <<"orientation", "fori">>, theme |-> <<"theme", "theme">>]
ResSchema == [fullName |-> <<"resFullName", "str">>, name |-> <<"resName", "str">>, type |-> <<"resType", "u8">>]
LibSchema == [data |-> <<"data", "str">>, libType |-> <<"libType", "u8">>, reserved1 |-> <<"reserved1", "str">>, reserved2 |-> <<"reserved2", "str">>,
  reserved3 |-> <<"reserved3", "str">>, useYn |-> <<"useYn", "str">>]
CompSchema == [id |-> <<"componentId", "str">>, p1 |-> <<"param1", "str">>, p2 |-> <<"param2", "str">>, p3 |-> <<"param3", "str">>, type |-> <<"type", "u8">>]
EventSchema == [name |-> <<"eventName", "str">>, etype |-> <<"eventType", "u8">>, target |-> <<"targetId", "str">>, ttype |-> <<"targetType", "u8">>]
BlockSchema == [color |-> <<"color", "color">>, id |-> <<"id", "str">>, next |-> <<"nextBlock", "i32">>, op |-> <<"opCode", "str">>, spec |-> <<"spec", "str">>,
  ss1 |-> <<"subStack1", "i32">>, ss2 |-> <<"subStack2", "i32">>, type |-> <<"type", "str">>, tn |-> <<"typeName", "str">>]
ViewTypes == ("adSize" :> "str") @@ ("adUnitId" :> "str") @@ ("alpha" :> "f32") @@ ("checked" :> "b01") @@ ("choiceMode" :> "choice") @@ ("clickable" :> "b01")
  @@ ("customView" :> "str") @@ ("dividerHeight" :> "u32") @@ ("enabled" :> "b01") @@ ("firstDayOfWeek" :> "u8") @@ ("id" :> "str")
  @@ ("image.resName" :> "ostr") @@ ("image.rotate" :> "i16") @@ ("image.scaleType" :> "scale") @@ ("indeterminate" :> "bstr") @@ ("index" :> "u32")
  @@ ("layout.backgroundColor" :> "color") @@ ("layout.gravity" :> "u8") @@ ("layout.height" :> "size") @@ ("layout.layoutGravity" :> "u8")
  @@ ("layout.marginBottom" :> "u32") @@ ("layout.marginLeft" :> "u32") @@ ("layout.marginRight" :> "u32") @@ ("layout.marginTop" :> "u32")
  @@ ("layout.orientation" :> "lori") @@ ("layout.paddingBottom" :> "u32") @@ ("layout.paddingLeft" :> "u32") @@ ("layout.paddingRight" :> "u32")
  @@ ("layout.paddingTop" :> "u32") @@ ("layout.weight" :> "u32") @@ ("layout.weightSum" :> "u32") @@ ("layout.width" :> "size")
  @@ ("max" :> "u32") @@ ("parent" :> "ostr") @@ ("parentType" :> "i8") @@ ("preId" :> "ostr") @@ ("preIndex" :> "i32") @@ ("preParent" :> "ostr")
  @@ ("preParentType" :> "i8") @@ ("progress" :> "u32") @@ ("progressStyle" :> "str") @@ ("scaleX" :> "f32") @@ ("scaleY" :> "f32") @@ ("spinnerMode" :> "spinner")
  @@ ("text.hint" :> "str") @@ ("text.hintColor" :> "color") @@ ("text.imeOption" :> "ime") @@ ("text.inputType" :> "input") @@ ("text.line" :> "u32")
  @@ ("text.singleLine" :> "b01") @@ ("text.text" :> "str") @@ ("text.textColor" :> "color") @@ ("text.textFont" :> "str") @@ ("text.textSize" :> "u32")
  @@ ("text.textType" :> "tstyle") @@ ("translationX" :> "f32") @@ ("translationY" :> "f32") @@ ("type" :> "u8")
ViewSchema == [k \in DOMAIN ViewTypes |-> <<k, ViewTypes[k]>>]

(* ---------------------------------------------------------------- items *)
NotItem == R("err", <<>>)
Drop(f, ks) == TLCEval([x \in DOMAIN f \ ks |-> f[x]])
FileItem(t) ==
  IF t.k # "json" THEN NotItem ELSE
  LET r == Rec(FileSchema, t.j) IN IF r.st \notin {"ok", "may"} THEN R(r.st, <<>>)
  ELSE LET n == ToNat(r.v.opts) IN R(IF n < 16 THEN r.st ELSE "may", Drop(r.v, {"opts"}) @@ OptFlags(n))
ResItem(t) == IF t.k # "json" THEN NotItem ELSE Rec(ResSchema, t.j)
CompItem(t) == IF t.k # "json" THEN NotItem ELSE Rec(CompSchema, t.j)
EventItem(t) == IF t.k # "json" THEN NotItem ELSE Rec(EventSchema, t.j)
ViewItem(t) == IF t.k # "json" THEN NotItem ELSE Rec(ViewSchema, t.j)
List(t, key) == IF key \in DOMAIN t.l THEN t.l[key] ELSE <<>>
IsList(t, key) == key \in DOMAIN t.l
StrList(t, key) == IF ~IsList(t, key) THEN R("err", <<>>)
  ELSE LET q == List(t, key) IN IF \A i \in 1 .. Len(q) : q[i].k = "sc" /\ Tag(q[i].v) = "s:" THEN R("ok", [i \in 1 .. Len(q) |-> Val(q[i].v)]) ELSE R("err", <<>>)
AdUnits(t) == IF ~IsList(t, "adUnits") THEN R("err", <<>>)
  ELSE LET q == List(t, "adUnits")
           one == [i \in 1 .. Len(q) |-> IF q[i].k = "obj" THEN Rec([id |-> <<"id", "str">>, name |-> <<"name", "str">>], q[i].o) ELSE R("err", <<>>)]
       IN R(WorstOf({one[i].st : i \in 1 .. Len(q)}), [i \in 1 .. Len(q) |-> one[i].v])
LibItem(t) ==
  IF t.k # "json" THEN NotItem ELSE
  LET r == Rec(LibSchema, t.j)  d == StrList(t, "testDevices")  a == AdUnits(t)
      st == WorstOf({r.st, d.st, a.st})
  IN IF st \in {"err", "any"} THEN R(st, <<>>) ELSE R(st, r.v @@ ("adUnits" :> a.v) @@ ("testDevices" :> d.v))
BlockItem(t) ==
  IF t.k # "json" THEN NotItem ELSE
  LET r == Rec(BlockSchema, t.j)  p == StrList(t, "parameters")  st == Worst(r.st, p.st)
  IN IF st \in {"err", "any"} THEN R(st, <<>>)
     ELSE R(st, [color |-> r.v.color, id |-> r.v.id, idn |-> t.aux.idn, idok |-> t.aux.idok, next |-> t.aux.next, op |-> r.v.op,
                 params |-> [i \in 1 .. Len(p.v) |-> List(t, "parameters")[i].p], spec |-> r.v.spec, words |-> t.aux.words,
                 ss1 |-> t.aux.ss1, ss2 |-> t.aux.ss2, type |-> r.v.type, tn |-> r.v.tn])
\* "<type code>:<name>"
VarItem(t) ==
  IF t.k # "text" THEN NotItem ELSE IF t.c # "1" THEN NotItem
  ELSE LET n == NameOf(VarTypes, t.a) IN
       IF n.ok THEN R("ok", [name |-> t.b, own |-> t.b, type |-> n.v])
       ELSE IF IsDigits(t.a) /\ NameOf(VarTypes, StripZeros(t.a)).ok THEN R("may", [name |-> t.b, own |-> t.b, type |-> NameOf(VarTypes, StripZeros(t.a)).v])
       ELSE IF StartsWith(t.a, "+") THEN R("any", <<>>) ELSE NotItem
\* "<id>:<spec>"
MbItem(t) ==
  IF t.k = "text" /\ t.c = "1" THEN R("ok", [id |-> t.a, own |-> t.a, spec |-> t.b, words |-> t.w])
  ELSE IF t.k \in {"json", "head"} THEN R("any", <<>>) ELSE NotItem

(* ---------------------------------------------------------------- project *)
Days(r) == ReadDate(r.v.date)
ReadProject(lines) ==
  IF Len(lines) # 1 THEN R("any", <<>>)
  ELSE IF lines[1].k # "json" THEN R("err", <<>>)
  ELSE LET r == Rec(ProjectSchema, lines[1].j)
           d == IF r.st \in {"ok", "may"} THEN ReadDate(r.v.date) ELSE Bad
       IN IF r.st \notin {"ok", "may"} THEN R(r.st, <<>>)
          ELSE IF d.ok THEN R(r.st, Drop(r.v, {"date"}) @@ d.v)
          ELSE IF DateLike(r.v.date) THEN R("any", <<>>) ELSE R("err", <<>>)
WriteProject(m) == <<Line(ProjectSchema, Drop(m, {"days", "secs"}) @@ ("date" :> WriteDate(ToInt(m.days), ToNat(m.secs))))>>

(* ---------------------------------------------------------------- lists of items under fixed headers: file, resource *)
ListItem(which, t) == IF which = "file" THEN FileItem(t) ELSE ResItem(t)
RECURSIVE ReadSections(_, _, _, _, _, _)
\* acc: section -> entries; sec: current section, "" before the first
ReadSections(lines, i, sec, acc, st, which) ==
  IF i > Len(lines) THEN R(st, acc)
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN ReadSections(lines, i + 1, sec, acc, st, which)
    ELSE IF t.k = "head" /\ t.h \in DOMAIN acc THEN ReadSections(lines, i + 1, t.h, acc, st, which)
    ELSE IF sec = "" THEN ReadSections(lines, i + 1, sec, acc, Worst(st, "may"), which)
    ELSE LET x == ListItem(which, t) IN ReadSections(lines, i + 1, sec, IF x.st \in {"ok", "may"} THEN [acc EXCEPT ![sec] = Append(@, x.v)] ELSE acc, Worst(st, x.st), which)
ReadFile(lines) ==
  LET r == ReadSections(lines, 1, "", [activity |-> <<>>, customview |-> <<>>], "ok", "file")
  IN R(r.st, [activities |-> r.v.activity, customViews |-> r.v.customview])
ReadResource(lines) == ReadSections(lines, 1, "", [images |-> <<>>, sounds |-> <<>>, fonts |-> <<>>], "ok", "resource")
FileLine(m) == Line(FileSchema, [name |-> m.name, ftype |-> m.ftype, kbd |-> m.kbd, opts |-> ToString(OptCode(m.toolbar, m.fullscreen, m.drawer, m.fab)), orientation |-> m.orientation, theme |-> m.theme])
WriteFile(m) == <<HeadLine("activity")>> \o Map(m.activities, FileLine) \o <<HeadLine("customview")>> \o Map(m.customViews, FileLine)
ResLine(m) == Line(ResSchema, m)
WriteResource(m) == <<HeadLine("images")>> \o Map(m.images, ResLine) \o <<HeadLine("sounds")>> \o Map(m.sounds, ResLine) \o <<HeadLine("fonts")>> \o Map(m.fonts, ResLine)

(* ---------------------------------------------------------------- library: each header is followed by its item *)
LibHeads == {"firebaseDB", "compat", "admob", "googleMap"}
RECURSIVE ReadLib(_, _, _, _)
ReadLib(lines, i, acc, st) ==
  IF i > Len(lines) THEN (IF DOMAIN acc = LibHeads \cup {"_"} THEN R(st, Drop(acc, {"_"})) ELSE R(Worst(st, "err"), <<>>))
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN ReadLib(lines, i + 1, acc, st)
    ELSE IF t.k = "head" /\ t.h \in LibHeads THEN
      IF i = Len(lines) THEN R(Worst(st, "err"), <<>>)
      ELSE LET x == LibItem(lines[i + 1]) IN
        ReadLib(lines, i + 2, IF x.st \in {"ok", "may"} THEN Put(acc, t.h, x.v) ELSE acc,
                Worst(st, IF t.h \in DOMAIN acc THEN "any" ELSE x.st))
    ELSE ReadLib(lines, i + 1, acc, Worst(st, "may"))
ReadLibrary(lines) == ReadLib(lines, 1, ("_" :> <<>>), "ok")
NoP == [s |-> "", n |-> "-", num |-> "0", r |-> -1, rk |-> "no"]
LibLine(m) == JLine(Unrec(LibSchema, Drop(m, {"adUnits", "testDevices"})),
  ("adUnits" :> [i \in 1 .. Len(m.adUnits) |-> [k |-> "obj", v |-> "", o |-> [id |-> "s:" \o m.adUnits[i].id, name |-> "s:" \o m.adUnits[i].name], p |-> NoP]])
  @@ ("testDevices" :> [i \in 1 .. Len(m.testDevices) |-> [k |-> "sc", v |-> "s:" \o m.testDevices[i], o |-> ("_" :> ""), p |-> [NoP EXCEPT !.s = m.testDevices[i]]]]), NoAux)
WriteLibrary(m) == <<HeadLine("firebaseDB"), LibLine(m.firebaseDB), HeadLine("compat"), LibLine(m.compat), HeadLine("admob"), LibLine(m.admob), HeadLine("googleMap"), LibLine(m.googleMap)>>

(* ---------------------------------------------------------------- view: layouts run to a blank line, a fab is one line *)
Dot(h) == IndexOf(h, ".")
Names(q) == {q[i].name : i \in 1 .. Len(q)}
RECURSIVE ReadViews(_, _, _, _, _)
\* sec: "" outside, else the open layout's name prefixed with "="
ReadViews(lines, i, sec, acc, st) ==
  IF i > Len(lines) THEN R(st, acc)
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN ReadViews(lines, i + 1, "", acc, st)
    ELSE IF t.k = "head" THEN
      LET d == Dot(t.h)  n == SubSeq(t.h, 1, d - 1)  ext == From(t.h, d + 1)
      IN IF sec # "" THEN R(Worst(st, "err"), acc)   \* a layout ends with a blank line
         ELSE IF d = 0 THEN ReadViews(lines, i + 1, "", acc, Worst(st, "err"))
         ELSE IF ext = "xml" THEN ReadViews(lines, i + 1, "=" \o n, [acc EXCEPT !.layouts = Append(@, [name |-> n, views |-> <<>>])],
                                            Worst(st, IF n \in Names(acc.layouts) THEN "any" ELSE "ok"))
         ELSE IF ext = "xml_fab" THEN
           IF i = Len(lines) THEN R(Worst(st, "err"), acc)
           ELSE LET x == ViewItem(lines[i + 1]) IN
             ReadViews(lines, i + 2, "", IF x.st \in {"ok", "may"} THEN [acc EXCEPT !.fabs = Append(@, [name |-> n, view |-> x.v])] ELSE acc,
                       WorstOf({st, x.st, IF n \in Names(acc.fabs) THEN "any" ELSE "ok"}))
         ELSE ReadViews(lines, i + 1, "", acc, Worst(st, "may"))
    ELSE IF sec = "" THEN ReadViews(lines, i + 1, "", acc, Worst(st, "may"))
    ELSE LET x == ViewItem(t)  k == Len(acc.layouts) IN
      ReadViews(lines, i + 1, sec, IF x.st \in {"ok", "may"} THEN [acc EXCEPT !.layouts[k].views = Append(@, x.v)] ELSE acc, Worst(st, x.st))
ReadView(lines) == ReadViews(lines, 1, "", [layouts |-> <<>>, fabs |-> <<>>], "ok")
ViewLine(v) == Line(ViewSchema, v)
WriteView(m) == Flat([i \in 1 .. Len(m.layouts) |-> <<HeadLine(m.layouts[i].name \o ".xml")>> \o Map(m.layouts[i].views, ViewLine) \o <<BlankLine>>])
             \o Flat([i \in 1 .. Len(m.fabs) |-> <<HeadLine(m.fabs[i].name \o ".xml_fab"), ViewLine(m.fabs[i].view)>>])

(* ---------------------------------------------------------------- logic: every section runs to a blank line *)
Pools == [java_var |-> "vars", java_list |-> "lists", java_components |-> "comps", java_events |-> "events", java_func |-> "mbs"]
NoPool == [some |-> "0", l |-> <<>>]
NewScreen(n) == [name |-> n, own |-> n, conts |-> <<>>, vars |-> NoPool, lists |-> NoPool, comps |-> NoPool, events |-> NoPool, mbs |-> NoPool]
\* header -> [ok, v |-> <<screen, section>>]; section is a pool or a container
LogicHead(h) == LET p == IndexOf(h, ".java_") IN IF p = 0 THEN Bad ELSE Ok(<<SubSeq(h, 1, p - 1), From(h, p + 6)>>)
PoolOf(c) == LET k == "java_" \o c IN IF k \in DOMAIN Pools THEN Pools[k] ELSE ""
LogicItem(pool, t) ==
  CASE pool \in {"vars", "lists"} -> VarItem(t) [] pool = "comps" -> CompItem(t) [] pool = "events" -> EventItem(t) [] pool = "mbs" -> MbItem(t) [] OTHER -> BlockItem(t)
KeyOf(pool, x) == IF pool \in {"vars", "lists"} THEN x.name ELSE IF pool = "mbs" THEN x.id ELSE ""
ScreenAt(acc, n) == LET s == {i \in 1 .. Len(acc) : acc[i].name = n} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
RECURSIVE ReadLogics(_, _, _, _, _)
\* sec: <<>> outside, or <<screen index, section name>>
ReadLogics(lines, i, sec, acc, st) ==
  IF i > Len(lines) THEN R(st, acc)
  ELSE LET t == lines[i] IN
    IF t.k = "blank" THEN ReadLogics(lines, i + 1, <<>>, acc, st)
    ELSE IF sec = <<>> THEN
      IF t.k # "head" THEN ReadLogics(lines, i + 1, <<>>, acc, Worst(st, "may"))
      ELSE LET h == LogicHead(t.h) IN
        IF ~h.ok THEN R(Worst(st, "err"), acc)
        ELSE LET k0 == ScreenAt(acc, h.v[1])
                 a1 == IF k0 = 0 THEN Append(acc, NewScreen(h.v[1])) ELSE acc
                 k == IF k0 = 0 THEN Len(acc) + 1 ELSE k0
                 pool == PoolOf(h.v[2])
                 dup == IF pool # "" THEN a1[k][pool].some = "1" ELSE \E c \in 1 .. Len(a1[k].conts) : a1[k].conts[c].id = h.v[2]
                 odd == IndexOf(h.v[2], ".java_") # 0
                 a2 == IF pool # "" THEN [a1 EXCEPT ![k][pool] = [some |-> "1", l |-> <<>>]] ELSE [a1 EXCEPT ![k].conts = Append(@, [id |-> h.v[2], flat |-> <<>>])]
             IN ReadLogics(lines, i + 1, <<k, h.v[2]>>, a2, Worst(st, IF dup \/ odd THEN "any" ELSE "ok"))
    ELSE LET k == sec[1]  pool == PoolOf(sec[2])  x == LogicItem(pool, t)
             q == IF pool # "" THEN acc[k][pool].l ELSE <<>>
             dup == x.st \in {"ok", "may"} /\ KeyOf(pool, x.v) # "" /\ \E n \in 1 .. Len(q) : KeyOf(pool, q[n]) = KeyOf(pool, x.v)
             c == Len(acc[k].conts)
             a2 == IF x.st \notin {"ok", "may"} THEN acc
                   ELSE IF pool # "" THEN [acc EXCEPT ![k][pool].l = Append(@, x.v)]
                   ELSE [acc EXCEPT ![k].conts[c].flat = Append(@, x.v)]
         IN IF x.st = "err" THEN R(Worst(st, "err"), acc) ELSE ReadLogics(lines, i + 1, sec, a2, WorstOf({st, x.st, IF dup THEN "any" ELSE "ok"}))
ReadLogic(lines) == LET r == ReadLogics(lines, 1, <<>>, <<>>, "ok") IN R(r.st, [screens |-> r.v])
BlockLine(b) == JLine(Unrec(BlockSchema, [color |-> b.color, id |-> b.id, next |-> ToString(b.next), op |-> b.op, spec |-> b.spec, ss1 |-> ToString(b.ss1), ss2 |-> ToString(b.ss2), type |-> b.type, tn |-> b.tn]),
  ("parameters" :> [i \in 1 .. Len(b.params) |-> [k |-> "sc", v |-> "s:" \o b.params[i].s, o |-> ("_" :> ""), p |-> b.params[i]]]),
  [words |-> b.words, idn |-> b.idn, idok |-> b.idok, next |-> b.next, ss1 |-> b.ss1, ss2 |-> b.ss2])
VarLine(v) == [k |-> "text", a |-> CodeOf(VarTypes, v.type).v, c |-> "1", b |-> v.name, w |-> <<v.name>>]
MbLine(m) == [k |-> "text", a |-> m.id, c |-> "1", b |-> m.spec, w |-> m.words]
Section(h, body) == <<HeadLine(h)>> \o body \o <<BlankLine>>
PoolLines(s, suffix, pool, L(_)) == IF s[pool].some = "1" THEN Section(s.name \o "." \o suffix, Map(s[pool].l, L)) ELSE <<>>
WriteLogic(m) ==
  LET S == m.screens
      All(suffix, pool, L(_)) == Flat([i \in 1 .. Len(S) |-> PoolLines(S[i], suffix, pool, L)])
      CL(c) == Line(CompSchema, c)
      EL(e) == Line(EventSchema, e)
  IN All("java_var", "vars", VarLine) \o All("java_list", "lists", VarLine) \o All("java_components", "comps", CL) \o All("java_events", "events", EL)
     \o All("java_func", "mbs", MbLine)
     \o Flat([i \in 1 .. Len(S) |-> Flat([c \in 1 .. Len(S[i].conts) |-> Section(S[i].name \o ".java_" \o S[i].conts[c].id, Map(S[i].conts[c].flat, BlockLine))])])

(* ---------------------------------------------------------------- pieces that read and write on their own *)
Singles == {"fileItem", "resItem", "libItem", "viewItem", "varItem", "listItem", "compItem", "mbItem", "eventItem", "header", "blockItem"}
Runs == {"layout", "varPool", "listPool", "compPool", "mbPool", "eventPool", "blocks"}
ItemOf == [layout |-> "viewItem", varPool |-> "varItem", listPool |-> "listItem", compPool |-> "compItem", mbPool |-> "mbItem", eventPool |-> "eventItem", blocks |-> "blockItem"]
\* "<screen>.java_<container>" after the @
HeaderItem(t) ==
  IF t.k # "head" THEN NotItem
  ELSE LET h == LogicHead(t.h) IN IF ~h.ok THEN NotItem ELSE R(IF IndexOf(h.v[2], ".java_") # 0 THEN "any" ELSE "ok", [screen |-> h.v[1], cont |-> h.v[2]])
ReadItem(kind, t) ==
  CASE kind = "fileItem" -> FileItem(t) [] kind = "resItem" -> ResItem(t) [] kind = "libItem" -> LibItem(t) [] kind = "viewItem" -> ViewItem(t)
    [] kind \in {"varItem", "listItem"} -> VarItem(t) [] kind = "compItem" -> CompItem(t) [] kind = "mbItem" -> MbItem(t) [] kind = "eventItem" -> EventItem(t)
    [] kind = "header" -> HeaderItem(t) [] kind = "blockItem" -> BlockItem(t)
PieceKey(kind, x) == IF kind \in {"varPool", "listPool"} THEN x.name ELSE IF kind = "mbPool" THEN x.id ELSE ""
\* how many lines come before the first blank one
RunLen(lines) == LET b == {i \in 1 .. Len(lines) : lines[i].k = "blank"} IN IF b = {} THEN Len(lines) ELSE (CHOOSE i \in b : \A n \in b : i <= n) - 1
RunRest(lines) == SubSeq(lines, RunLen(lines) + 2, Len(lines))
ReadRun(kind, lines) ==
  LET x == [i \in 1 .. RunLen(lines) |-> ReadItem(ItemOf[kind], lines[i])]
      st == WorstOf({x[i].st : i \in DOMAIN x})
  IN IF st \in {"err", "any"} THEN R(st, <<>>)
     ELSE LET v == [i \in DOMAIN x |-> x[i].v] IN
          R(IF \E i, n \in DOMAIN v : i # n /\ PieceKey(kind, v[i]) # "" /\ PieceKey(kind, v[i]) = PieceKey(kind, v[n]) THEN "any" ELSE st, v)
ReadPiece(kind, lines) ==
  IF kind \in Singles THEN (IF Len(lines) # 1 THEN R("any", <<>>) ELSE ReadItem(kind, lines[1]))
  ELSE LET r == ReadRun(kind, lines) IN
       \* what stands after a blank line is not part of the piece
       IF r.st \in {"err", "any"} THEN r ELSE R(IF \E i \in 1 .. Len(RunRest(lines)) : RunRest(lines)[i].k # "blank" THEN Worst(r.st, "may") ELSE r.st, r.v)
LineOf(kind, v) ==
  CASE kind = "fileItem" -> FileLine(v) [] kind = "resItem" -> ResLine(v) [] kind = "libItem" -> LibLine(v) [] kind = "viewItem" -> ViewLine(v)
    [] kind \in {"varItem", "listItem"} -> VarLine(v) [] kind = "compItem" -> Line(CompSchema, v) [] kind = "mbItem" -> MbLine(v)
    [] kind = "eventItem" -> Line(EventSchema, v) [] kind = "header" -> HeadLine(v.screen \o ".java_" \o v.cont) [] kind = "blockItem" -> BlockLine(v)
WritePiece(kind, m) == IF kind \in Singles THEN <<LineOf(kind, m)>> ELSE [i \in 1 .. Len(m) |-> LineOf(ItemOf[kind], m[i])]

(* ---------------------------------------------------------------- all of them *)
Read(kind, lines) ==
  CASE kind = "project" -> ReadProject(lines) [] kind = "file" -> ReadFile(lines) [] kind = "library" -> ReadLibrary(lines)
    [] kind = "resource" -> ReadResource(lines) [] kind = "view" -> ReadView(lines) [] kind = "logic" -> ReadLogic(lines)
    [] OTHER -> ReadPiece(kind, lines)
Write(kind, m) ==
  CASE kind = "project" -> WriteProject(m) [] kind = "file" -> WriteFile(m) [] kind = "library" -> WriteLibrary(m)
    [] kind = "resource" -> WriteResource(m) [] kind = "view" -> WriteView(m) [] kind = "logic" -> WriteLogic(m)
    [] OTHER -> WritePiece(kind, m)
\* the same content: the order of the screens of a logic file carries no meaning, all other orders do
SameModel(kind, a, b) == IF kind = "logic" THEN AsSet(a.screens) = AsSet(b.screens) /\ Len(a.screens) = Len(b.screens) ELSE a = b
Kinds == {"project", "file", "library", "resource", "view", "logic"}
=============================================================================
