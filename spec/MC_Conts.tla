------------------------------- MODULE MC_Conts ------------------------------
(* One screen, and every choice of the events and moreblocks declared on it, of the code stored for
   them, of code stored under names close to theirs (or under all of those), and of the order of it all.
   The parts are lines of real files.  Dumps each choice for replay. *)
EXTENDS Project, Json, CSV, IOUtils
CONSTANTS Orders, Single
VARIABLES have, near, turn, at

Part == ndJsonDeserialize(IOEnv.PARTS)
LinesOf(n) == Part[CHOOSE i \in 1 .. Len(Part) : Part[i].kind = n].lines
Decls == <<"event/click", "event/back", "event/create", "event/comp", "mb/foo">>
Owns == <<"cont/t_onClick", "cont/onBackPressed_onBackPressed", "cont/onCreate_initializeLogic", "cont/c_onX", "cont/foo_moreBlock">>
Nears == <<"cont/T_onClick", "cont/t_onclick", "cont/t_onClick_", "cont/t_onClick_onClick", "cont/onClick_onClick", "cont/onBackPressed_initializeLogic", "cont/onCreate_onCreate",
           "cont/oncreate_initializelogic", "cont/c_onx", "cont/c2_onX", "cont/foo_moreblock", "cont/Foo_moreBlock", "cont/foo_foo", "cont/foo">>
Each == Decls \o Owns
Turned(q) == IF turn = 0 THEN q ELSE Reverse(q)
Text(q, set) == Flat([i \in 1 .. Len(q) |-> IF q[i] \in set THEN LinesOf(q[i]) ELSE <<>>])
HasMb(set) == "mb/foo" \in set
Logic(set) == LinesOf("head/events") \o Text(Decls \o <<>>, set \ {"mb/foo"}) \o LinesOf("gap") \o (IF HasMb(set) THEN LinesOf("mb/foo") ELSE <<>>) \o Text(Turned(Owns \o Nears), set)
Raw(set) == [project |-> LinesOf("project"), file |-> LinesOf("file"), library |-> LinesOf("library"), resource |-> LinesOf("resource"), view |-> LinesOf("view"), logic |-> Logic(set)]
NoFiles == [some |-> "1", l |-> <<>>]
Loaded(set) == LET r == ReadAll(Raw(set)) IN IF DocsSt(r) = "ok" THEN Lift(Models(r), NoFiles) ELSE Bad
All_ == have \cup near

Init == have = {} /\ turn \in 0 .. Orders - 1 /\ near \in {{}, Elems(Nears)} \cup (IF Single THEN {{Nears[i]} : i \in 1 .. Len(Nears)} ELSE {}) /\ at = 0
Next == at < Len(Each) /\ at' = at + 1 /\ UNCHANGED <<turn, near>> /\ have' \in {have, have \cup {Each[at + 1]}}
Done == at = Len(Each)
Dump == Done => CSVWrite("%1$s", <<ToJson([decl |-> SelectSeq(Decls, LAMBDA p : p \in have), cont |-> SelectSeq(Turned(Owns \o Nears), LAMBDA p : p \in All_)])>>, IOEnv.DUMP)
\* the code of a container, told by what it does
OpOf(code) == IF code = <<>> THEN "" ELSE code[1].op
Wants == [click |-> "cont/t_onClick", back |-> "cont/onBackPressed_onBackPressed", create |-> "cont/onCreate_initializeLogic", comp |-> "cont/c_onX"]
Kind(e) == IF e.et = "view" THEN "click" ELSE IF e.et = "component" THEN "comp" ELSE IF e.name = "onCreate" THEN "create" ELSE "back"
\* every event has its own code, if there is any, and the events are those declared, and onCreate where its code is
Own == Done => LET l == Loaded(All_) IN l.ok /\
  LET s == l.v.screens[1] IN
    /\ \A i \in 1 .. Len(s.events) : OpOf(s.events[i].code) = (IF Wants[Kind(s.events[i])] \in have THEN Wants[Kind(s.events[i])] ELSE "")
    /\ {Kind(s.events[i]) : i \in 1 .. Len(s.events)} = {k \in DOMAIN Wants : "event/" \o k \in have} \cup (IF Wants.create \in have THEN {"create"} ELSE {})
    /\ Len(s.events) = Cardinality({Kind(s.events[i]) : i \in 1 .. Len(s.events)})
    /\ Len(s.mbs) = (IF HasMb(have) THEN 1 ELSE 0)
    /\ HasMb(have) => OpOf(s.mbs[1].code) = (IF "cont/foo_moreBlock" \in have THEN "cont/foo_moreBlock" ELSE "")
\* code stored under other names changes nothing
Alone == Done => Loaded(All_) = Loaded(have)
Saveable == Done => RoundTrip(Loaded(All_).v, FALSE)
=============================================================================
