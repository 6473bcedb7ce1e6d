-------------------------------- MODULE Make ---------------------------------
(* Things made from nothing through constructors.
     bench : [items, content, made, held]   the content being put together, the finished one,
                                            the blocks made so far and those put aside
   A block with one sub stack takes what was made; one with two takes what was put aside and what was made. *)
EXTENDS Project

NoBench == [items |-> <<>>, content |-> <<>>, made |-> <<>>, held |-> <<>>]
TextOf(s, words) == [k |-> "text", nm |-> "", vk |-> "text", v |-> s, w |-> words, b |-> <<>>]
AddItem(b, it) == [b EXCEPT !.items = Append(@, it)]
Finish(b) == [b EXCEPT !.content = b.items, !.items = <<>>]
Hold(b) == [b EXCEPT !.held = b.made, !.made = <<>>]

\* an opaque colour as the signed number it is stored as
Opaque(rgb) == ToString(rgb[1] * 65536 + rgb[2] * 256 + rgb[3] - 16777216)
NewBlock(content, cat, op, kind, tn, ss1, ss2) ==
  [op |-> op, color |-> Opaque(CodeOf(Categories, cat).v), kind |-> kind, tn |-> IF kind \in TypedKinds THEN tn ELSE "", items |-> content, ss1 |-> ss1, ss2 |-> ss2]
Subs(ctor) == <<BoolStr(ctor # "new"), BoolStr(ctor = "two")>>
BlockFrom(b, ctor, cat, op, kind, tn) ==
  CASE ctor = "new" -> NewBlock(b.content, cat, op, kind, tn, <<>>, <<>>)
    [] ctor = "one" -> NewBlock(b.content, cat, op, "OneNest", "", b.made, <<>>)
    [] ctor = "two" -> NewBlock(b.content, cat, op, "TwoNest", "", b.held, b.made)
\* the new block stands after what was made, or in place of it when that went into it
WithBlock(b, ctor, cat, op, kind, tn) ==
  LET x == BlockFrom(b, ctor, cat, op, kind, tn) IN
  [items |-> <<>>, content |-> <<>>, made |-> IF ctor = "new" THEN Append(b.made, x) ELSE <<x>>, held |-> IF ctor = "two" THEN <<>> ELSE b.held]
CategoryAt(rgb) == LET c == {x \in Categories : ToString(x[1]) = ToString(rgb)} IN IF c = {} THEN Bad ELSE Ok((CHOOSE x \in c : TRUE)[2])

(* ---------------------------------------------------------------- components, views, colours, gravity *)
NewComp(id, p, type) == LET At_n(i) == IF i <= Len(p) THEN p[i] ELSE "" IN [id |-> id, p1 |-> At_n(1), p2 |-> At_n(2), p3 |-> At_n(3), type |-> type]

EmptyView ==
     ("adSize" :> "") @@ ("adUnitId" :> "") @@ ("alpha" :> "1") @@ ("checked" :> "false") @@ ("choiceMode" :> "None") @@ ("clickable" :> "true")
  @@ ("customView" :> "") @@ ("dividerHeight" :> "0") @@ ("enabled" :> "true") @@ ("firstDayOfWeek" :> "1") @@ ("id" :> "")
  @@ ("image.resName" :> "-") @@ ("image.rotate" :> "0") @@ ("image.scaleType" :> "Center") @@ ("indeterminate" :> "false") @@ ("index" :> "0")
  @@ ("layout.backgroundColor" :> "16777215") @@ ("layout.gravity" :> "0") @@ ("layout.height" :> "match") @@ ("layout.layoutGravity" :> "0")
  @@ ("layout.marginBottom" :> "0") @@ ("layout.marginLeft" :> "0") @@ ("layout.marginRight" :> "0") @@ ("layout.marginTop" :> "0")
  @@ ("layout.orientation" :> "Vertical") @@ ("layout.paddingBottom" :> "8") @@ ("layout.paddingLeft" :> "8") @@ ("layout.paddingRight" :> "8")
  @@ ("layout.paddingTop" :> "8") @@ ("layout.weight" :> "0") @@ ("layout.weightSum" :> "0") @@ ("layout.width" :> "wrap")
  @@ ("max" :> "100") @@ ("parent" :> "-") @@ ("parentType" :> "0") @@ ("preId" :> "=") @@ ("preIndex" :> "0") @@ ("preParent" :> "-")
  @@ ("preParentType" :> "0") @@ ("progress" :> "0") @@ ("progressStyle" :> "") @@ ("scaleX" :> "1") @@ ("scaleY" :> "1") @@ ("spinnerMode" :> "Dropdown")
  @@ ("text.hint" :> "") @@ ("text.hintColor" :> "-10453621") @@ ("text.imeOption" :> "Normal") @@ ("text.inputType" :> "Text") @@ ("text.line" :> "0")
  @@ ("text.singleLine" :> "false") @@ ("text.text" :> "") @@ ("text.textColor" :> "-16777216") @@ ("text.textFont" :> "default_font") @@ ("text.textSize" :> "12")
  @@ ("text.textType" :> "Normal") @@ ("translationX" :> "0") @@ ("translationY" :> "0") @@ ("type" :> "0")
NewView(id, type, parent, ptype) == [EmptyView EXCEPT !["id"] = id, !["type"] = type, !["parent"] = "=" \o parent, !["parentType"] = ptype]

\* which directions a gravity holds: every bit of the direction is set
Gravities == [none |-> 0, centerH |-> 1, left |-> 3, right |-> 5, centerV |-> 16, center |-> 17, top |-> 48, bottom |-> 80]
Covers(n, g) == \A i \in 0 .. 7 : LET p == 2 ^ i IN Bit(g, p) => Bit(n, p)
Dirs(n) == {d \in DOMAIN Gravities \ {"none"} : Covers(n, Gravities[d])}

HexDigit(n) == Ch("0123456789abcdef", n + 1)
HexByte(n) == HexDigit(n \div 16) \o HexDigit(n % 16)
ColorText(c) == "0x" \o HexByte(c[1]) \o HexByte(c[2]) \o HexByte(c[3]) \o HexByte(c[4])
BlueTheme == <<<<255, 0, 141, 205>>, <<255, 0, 132, 194>>, <<255, 0, 141, 205>>, <<255, 87, 190, 238>>, <<32, 0, 141, 205>>>>

Fresh(name) ==
  [blocks |-> <<>>, blocks2 |-> <<>>, cont |-> <<>>, vars |-> <<>>, lists |-> <<>>, comps |-> <<>>, events |-> <<>>, mbs |-> <<>>,
   rfiles |-> [icon |-> <<>>, images |-> <<>>, sounds |-> <<>>, fonts |-> <<>>], store |-> NoStore,
   color |-> <<255, 0, 0, 0>>, gravity |-> 0, palette |-> BlueTheme,
   screen |-> [name |-> name, own |-> name, conts |-> <<>>, vars |-> NoPool, lists |-> NoPool, comps |-> NoPool, events |-> NoPool, mbs |-> NoPool]]

ASSUME DOMAIN EmptyView = DOMAIN ViewTypes
ASSUME Dirs(17) = {"centerH", "centerV", "center"} /\ Dirs(0) = {} /\ Dirs(51) = {"centerH", "left", "centerV", "center", "top"} /\ Dirs(255) = DOMAIN Gravities \ {"none"}
ASSUME \A d, e \in DOMAIN Gravities : d # e => Gravities[d] # Gravities[e]
=============================================================================
