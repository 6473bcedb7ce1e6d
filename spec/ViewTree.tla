------------------------------ MODULE ViewTree ------------------------------
(* Layouts.  A data file stores a flat list of raw views that name their parent; the API shows a
   tree whose nodes carry a typed kind next to the raw view.
     raw  : function from the file's (dotted) keys to text
     view : [id, bg, h, w, pt, pr, pb, pl, mt, mr, mb, ml, weight, weightSum, lgrav, kind, kids, raw]
     kind : [k |-> name, f |-> field -> text] ; "Err" when the type code names no kind *)
EXTENDS Codes

\* kind field |-> raw key it lives in
KindFields == [
  LinearLayout |-> [orientation |-> "layout.orientation", gravity |-> "layout.gravity"],
  ScrollView   |-> [gravity |-> "layout.gravity"],
  Button       |-> [text |-> "text.text", textColor |-> "text.textColor", textSize |-> "text.textSize", textStyle |-> "text.textType"],
  TextView     |-> [text |-> "text.text", textColor |-> "text.textColor", textSize |-> "text.textSize", textStyle |-> "text.textType",
                    singleLine |-> "text.singleLine", textFont |-> "text.textFont", lines |-> "text.line"],
  EditText     |-> [text |-> "text.text", textColor |-> "text.textColor", textSize |-> "text.textSize", textStyle |-> "text.textType",
                    singleLine |-> "text.singleLine", textFont |-> "text.textFont", lines |-> "text.line",
                    hint |-> "text.hint", hintColor |-> "text.hintColor", imeOption |-> "text.imeOption", inputType |-> "text.inputType"],
  ImageView    |-> [resName |-> "image.resName", scaleType |-> "image.scaleType"],
  ProgressBar  |-> [max |-> "max", progress |-> "progress", indeterminate |-> "indeterminate", progressStyle |-> "progressStyle"],
  ListView     |-> [dividerHeight |-> "dividerHeight", customView |-> "customView"],
  Spinner      |-> [spinnerMode |-> "spinnerMode"],
  CheckBox     |-> [checked |-> "checked", text |-> "text.text", textColor |-> "text.textColor", textSize |-> "text.textSize", textFont |-> "text.textFont", textStyle |-> "text.textType"],
  Switch       |-> [checked |-> "checked", text |-> "text.text", textColor |-> "text.textColor", textSize |-> "text.textSize", textFont |-> "text.textFont", textStyle |-> "text.textType"],
  SeekBar      |-> [max |-> "max", progress |-> "progress"],
  CalendarView |-> [firstDayOfWeek |-> "firstDayOfWeek"],
  Fab          |-> [resName |-> "image.resName"],
  AdView       |-> [adSize |-> "adSize"]]
Plain == {"WebView", "MapView"}
NoFields == ("_" :> "")
\* common field of a view |-> raw key
Common == [id |-> "id", bg |-> "layout.backgroundColor", h |-> "layout.height", w |-> "layout.width",
  pt |-> "layout.paddingTop", pr |-> "layout.paddingRight", pb |-> "layout.paddingBottom", pl |-> "layout.paddingLeft",
  mt |-> "layout.marginTop", mr |-> "layout.marginRight", mb |-> "layout.marginBottom", ml |-> "layout.marginLeft",
  weight |-> "layout.weight", weightSum |-> "layout.weightSum", lgrav |-> "layout.layoutGravity"]

ErrKind == [k |-> "Err", f |-> NoFields]
\* the one optional text among the kind fields is written "=x"
Pull(field, raw) == LET x == raw[field] IN IF field = "image.resName" THEN From(x, 2) ELSE x
Push(field, x) == IF field = "image.resName" THEN "=" \o x ELSE x
FieldsOf(name, raw) == TLCEval([x \in DOMAIN KindFields[name] |-> Pull(KindFields[name][x], raw)])
KindOf(raw) ==
  LET n == NameOf(ViewCodes, raw["type"]) IN
  IF ~n.ok THEN ErrKind
  ELSE IF n.v \in {"ImageView", "Fab"} /\ raw["image.resName"] = "-" THEN ErrKind
  ELSE IF n.v \in Plain THEN [k |-> n.v, f |-> NoFields]
  ELSE IF n.v = "ScrollView.Horizontal" THEN [k |-> "ScrollView", f |-> Put(FieldsOf("ScrollView", raw), "orientation", "Horizontal")]
  ELSE IF n.v = "ScrollView.Vertical" THEN [k |-> "ScrollView", f |-> Put(FieldsOf("ScrollView", raw), "orientation", "Vertical")]
  ELSE [k |-> n.v, f |-> FieldsOf(n.v, raw)]
TypeId(kind) == CodeOf(ViewCodes, IF kind.k = "ScrollView" THEN (IF kind.f.orientation = "Horizontal" THEN "ScrollView.Horizontal" ELSE "ScrollView.Vertical") ELSE kind.k).v
ApplyKind(kind, raw) ==
  IF kind.k \in Plain \cup {"Err"} THEN raw
  ELSE LET t == IF kind.k = "ScrollView" THEN Put(KindFields[kind.k], "orientation", "layout.orientation") ELSE KindFields[kind.k] IN
       TLCEval([key \in DOMAIN raw |-> IF \E x \in DOMAIN t : t[x] = key THEN Push(key, kind.f[CHOOSE x \in DOMAIN t : t[x] = key]) ELSE raw[key]])

\* the view a raw view is shown as, without children
ViewOf(raw) ==
  TLCEval([x \in DOMAIN Common \cup {"kind", "kids", "raw"} |->
     IF x = "kind" THEN KindOf(raw) ELSE IF x = "kids" THEN <<>> ELSE IF x = "raw" THEN raw ELSE raw[Common[x]]])

\* the raw view that has to be stored for v below a parent
TypeOfView(v) == IF v.kind.k = "Err" THEN v.raw["type"] ELSE TypeId(v.kind)
ExpectedRaw(v, parent, ptype) ==
  LET r == ApplyKind(v.kind, v.raw) IN
  TLCEval([key \in DOMAIN r |->
     IF key = "type" THEN TypeOfView(v) ELSE IF key = "parent" THEN "=" \o parent ELSE IF key = "parentType" THEN ptype
     ELSE IF \E x \in DOMAIN Common : Common[x] = key THEN v[CHOOSE x \in DOMAIN Common : Common[x] = key] ELSE r[key]])

\* the direction of a scroll view is its type code; the raw orientation next to it is not read, and written so that it agrees
MaskRaw(r) == IF r["type"] \in {"2", "12"} THEN [r EXCEPT !["layout.orientation"] = "*"] ELSE r

RECURSIVE AllRaw(_, _, _), Shape(_), Ids(_), Stored(_, _, _), FindIn(_, _)
\* every raw view a tree has to be stored as
AllRaw(tree, parent, ptype) ==
  UNION {{ExpectedRaw(tree[i], parent, ptype)} \cup AllRaw(tree[i].kids, tree[i].id, TypeOfView(tree[i])) : i \in 1 .. Len(tree)}
\* the tree seen after it has been stored and read again
Stored(tree, parent, ptype) ==
  TLCEval([i \in 1 .. Len(tree) |-> [ViewOf(ExpectedRaw(tree[i], parent, ptype)) EXCEPT !.kids = Stored(tree[i].kids, tree[i].id, TypeOfView(tree[i]))]])
Shape(tree) == TLCEval([i \in 1 .. Len(tree) |-> [id |-> tree[i].id, kids |-> Shape(tree[i].kids)]])
Ids(tree) == Flat([i \in 1 .. Len(tree) |-> <<tree[i].id>> \o Ids(tree[i].kids)])
FindIn(tree, id) ==   \* depth first; <<>> or <<view>>
  IF tree = <<>> THEN <<>> ELSE IF tree[1].id = id THEN <<tree[1]>>
  ELSE LET r == FindIn(tree[1].kids, id) IN IF r # <<>> THEN r ELSE FindIn(Tail(tree), id)

(* ---------------------------------------------------------------- flat list -> tree *)
RECURSIVE AddChild(_, _, _), Grow(_, _, _)
AddChild(tree, parent, v) ==
  TLCEval([i \in 1 .. Len(tree) |-> IF tree[i].id = parent THEN [tree[i] EXCEPT !.kids = Append(@, v)] ELSE [tree[i] EXCEPT !.kids = AddChild(@, parent, v)]])
Grow(flat, i, tree) ==
  IF i > Len(flat) THEN Ok(tree)
  ELSE LET p == flat[i]["parent"] IN
    IF p = "-" THEN Bad
    ELSE IF p = "=root" THEN Grow(flat, i + 1, Append(tree, ViewOf(flat[i])))
    ELSE IF From(p, 2) \in Elems(Ids(tree)) THEN Grow(flat, i + 1, AddChild(tree, From(p, 2), ViewOf(flat[i])))
    ELSE Bad
\* every view ends up under the parent it names, in file order; a parent that does not come earlier is an error
Rebuild(flat) == Grow(flat, 1, <<>>)

\* flat is a faithful storage of tree
Faithful(flat, tree) ==
  /\ Len(flat) = Len(Ids(tree))
  /\ {flat[i] : i \in 1 .. Len(flat)} = AllRaw(tree, "root", "0")
  /\ LET r == Rebuild(flat) IN r.ok /\ Shape(r.v) = Shape(tree)

(* the writer's design: level by level below each parent *)
RECURSIVE Flatten(_, _, _)
Flatten(tree, parent, ptype) ==
  [i \in 1 .. Len(tree) |-> ExpectedRaw(tree[i], parent, ptype)]
  \o Flat([i \in 1 .. Len(tree) |-> Flatten(tree[i].kids, tree[i].id, TypeOfView(tree[i]))])

(* ---------------------------------------------------------------- edits *)
PlaceAt(q, pos, x) == LET p == IF pos > Len(q) THEN Len(q) ELSE pos IN SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))
RECURSIVE EditAdd(_, _, _, _), EditDel(_, _), EditSet(_, _, _)
EditAdd(tree, parent, pos, v) ==
  IF parent = "" THEN PlaceAt(tree, pos, v)
  ELSE TLCEval([i \in 1 .. Len(tree) |-> IF tree[i].id = parent THEN [tree[i] EXCEPT !.kids = PlaceAt(@, pos, v)] ELSE [tree[i] EXCEPT !.kids = EditAdd(@, parent, pos, v)]])
EditDel(tree, id) == LET keep == SelectSeq(tree, LAMBDA v : v.id # id) IN TLCEval([i \in 1 .. Len(keep) |-> [keep[i] EXCEPT !.kids = EditDel(@, id)]])
Over(f, g) == [x \in DOMAIN f |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
SetView(v, s) ==
  TLCEval([x \in DOMAIN v |-> IF x = "kids" THEN v.kids ELSE IF x = "raw" THEN (IF "raw" \in DOMAIN s THEN Over(v.raw, s.raw) ELSE v.raw)
                      ELSE IF x \in DOMAIN s THEN s[x] ELSE v[x]])
EditSet(tree, id, s) == TLCEval([i \in 1 .. Len(tree) |-> IF tree[i].id = id THEN SetView(tree[i], s) ELSE [tree[i] EXCEPT !.kids = EditSet(@, id, s)]])
EditMove(tree, id, parent, pos) == EditAdd(EditDel(tree, id), parent, pos, FindIn(tree, id)[1])
=============================================================================
