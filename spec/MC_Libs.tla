------------------------------- MODULE MC_Libs -------------------------------
(* Every choice of the four library entries: enabled, disabled or neither, with or without settings.
   Dumps each choice for replay. *)
EXTENDS Project, Json, CSV, IOUtils
VARIABLES pick, at

Libs == <<"firebaseDB", "compat", "admob", "googleMap">>
Yns == {"Y", "N", "y"}
Fulls == {"0", "1"}
\* the entry of library k: its settings tell it from the others
Item(k, c) == LET f == c.full = "1"  s(x) == IF f THEN k \o x ELSE "" IN
  [adUnits |-> IF f THEN <<[id |-> k, name |-> "u"]>> ELSE <<>>, data |-> s("-d"), libType |-> "9", reserved1 |-> s("-1"), reserved2 |-> s("-2"), reserved3 |-> s("-3"),
   testDevices |-> IF f THEN <<k, k>> ELSE <<>>, useYn |-> c.yn]
ModelOf(p) == [k \in LibHeads |-> Item(k, p[k])]
Init == pick = [k \in LibHeads |-> [yn |-> "N", full |-> "0"]] /\ at = 0
Next == at < 4 /\ at' = at + 1 /\ \E y \in Yns, f \in Fulls : pick' = [pick EXCEPT ![Libs[at + 1]] = [yn |-> y, full |-> f]]
Done == at = 4
Dump == Done => CSVWrite("%1$s", <<ToJson([pick |-> pick, lib |-> ModelOf(pick)])>>, IOEnv.DUMP)
L(p) == LiftLibs(ModelOf(p))
\* an entry that says neither is refused, whichever it is
Told == Done => (L(pick).ok <=> \A k \in LibHeads : pick[k].yn # "y")
\* what is shown survives being saved, and an enabled library is enabled again
Kept == (Done /\ L(pick).ok) => LiftLibs(LowerLibs(L(pick).v)) = L(pick)
Shown == (Done /\ L(pick).ok) => LET v == L(pick).v IN
   /\ v.compat = BoolStr(pick["compat"].yn = "Y") /\ (v.firebase # <<>>) = (pick["firebaseDB"].yn = "Y") /\ (v.admob # <<>>) = (pick["admob"].yn = "Y") /\ (v.gmap # <<>>) = (pick["googleMap"].yn = "Y")
\* a library's entry has a say in nothing but that library
Shows == [firebaseDB |-> "firebase", compat |-> "compat", admob |-> "admob", googleMap |-> "gmap"]
Apart == (Done /\ L(pick).ok) => \A k \in LibHeads : \A y \in {"Y", "N"}, f \in Fulls :
   LET o == L([pick EXCEPT ![k] = [yn |-> y, full |-> f]]) IN o.ok /\ \A j \in LibHeads \ {k} : o.v[Shows[j]] = L(pick).v[Shows[j]]
\* the same through the file
InFile == Done => LET r == Read("library", Write("library", ModelOf(pick))) IN r.st = "ok" /\ r.v = ModelOf(pick)
=============================================================================
