------------------------------ MODULE MC_Match -------------------------------
(* Two activities, and every choice of the parts that are stored for them (layout, code, floating
   button), of left-over parts nobody asks for, and of the order of it all.  The parts are lines of real
   files.  Dumps each choice for replay. *)
EXTENDS Project, Json, CSV, IOUtils
CONSTANT Orders
VARIABLES have, turn, at

Part == ndJsonDeserialize(IOEnv.PARTS)
LinesOf(n) == Part[CHOOSE i \in 1 .. Len(Part) : Part[i].kind = n].lines
ViewParts == <<"view/layout/main", "view/layout/b_c", "view/layout/stray", "view/fab/main", "view/fab/b_c", "view/fab/stray">>
LogicParts == <<"logic/main", "logic/b_c", "logic/stray">>
Turned(q) == IF turn = 0 THEN q ELSE Reverse(q)
Doc(parts, set) == Flat([i \in 1 .. Len(parts) |-> IF parts[i] \in set THEN LinesOf(parts[i]) ELSE <<>>])
FileDoc == LinesOf(IF turn = 0 THEN "file/0" ELSE "file/1")
Raw(set) == [project |-> LinesOf("project"), file |-> FileDoc, library |-> LinesOf("library"), resource |-> LinesOf("resource"),
             view |-> Doc(Turned(ViewParts), set), logic |-> Doc(Turned(LogicParts), set)]
All == Elems(ViewParts) \cup Elems(LogicParts)
Own(n) == {"view/layout/" \o n, "view/fab/" \o n, "logic/" \o n}
NoFiles == [some |-> "1", l |-> <<>>]
Loaded(set) == LET r == ReadAll(Raw(set)) IN IF DocsSt(r) = "ok" THEN Lift(Models(r), NoFiles) ELSE Bad

\* chosen part by part
Each == ViewParts \o LogicParts
Init == have = {} /\ turn \in 0 .. Orders - 1 /\ at = 0
Next == at < Len(Each) /\ at' = at + 1 /\ turn' = turn /\ have' \in {have, have \cup {Each[at + 1]}}
Done == at = Len(Each)
Dump == Done => CSVWrite("%1$s", <<ToJson([view |-> SelectSeq(Turned(ViewParts), LAMBDA p : p \in have), logic |-> SelectSeq(Turned(LogicParts), LAMBDA p : p \in have), turn |-> turn])>>, IOEnv.DUMP)
Order == IF turn = 0 THEN <<"main", "b_c">> ELSE <<"b_c", "main">>
\* whatever is missing, the project is there, with one screen per activity, in order
Whole == Done => LET l == Loaded(have) IN l.ok /\ Map(l.v.screens, LAMBDA s : s.layoutName) = Order
\* a screen is made of its own parts and no others
Local == Done => LET l == Loaded(have).v IN \A i \in 1 .. 2 : l.screens[i] = Loaded(have \cap Own(Order[i])).v.screens[i]
\* and of every part that is there
Full == Done => LET l == Loaded(have).v IN \A i \in 1 .. 2 :
          /\ (l.screens[i].layout # <<>>) = ("view/layout/" \o Order[i] \in have)
          /\ (l.screens[i].fab # <<>>) = ("view/fab/" \o Order[i] \in have)
          /\ (l.screens[i].vars # <<>>) = ("logic/" \o Order[i] \in have)
\* it can be saved and comes back
Saveable == Done => RoundTrip(Loaded(have).v, FALSE)
=============================================================================
