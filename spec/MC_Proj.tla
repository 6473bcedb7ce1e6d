------------------------------- MODULE MC_Proj -------------------------------
(* Every session of at most Depth steps on a small project: edits taken from a file (whenever they make
   sense), saving and loading again with or without resource files.  Checks that every reachable
   project survives being saved, and dumps each session for replay. *)
EXTENDS Project, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES api, auto, hist, from

Edits == ndJsonDeserialize(IOEnv.EDITS)
Starts == ndJsonDeserialize(IOEnv.START)
Disk == {"images/1/p.png", "icons/1/i.png"}

ScreenNames(a) == {a.screens[i].layoutName : i \in 1 .. Len(a.screens)} \cup {a.cviews[i].name : i \in 1 .. Len(a.cviews)}
Conts(s) == {ContId(s.events[i].et, s.events[i].target, s.events[i].name) : i \in 1 .. Len(s.events)} \cup {MbCont(s.mbs[i].id) : i \in 1 .. Len(s.mbs)}
OnScreen == {"screen.del", "screen.flags", "var.add", "var.del", "list.add", "list.del", "comp.add", "comp.del", "mb.add", "mb.del", "mb.code", "ev.add", "ev.del", "ev.code", "ev.push", "fab"}
LayoutOf(a, e) == IF e.where = "screen" THEN a.screens[e.i + 1].layout ELSE a.cviews[e.i + 1].layout
Fits(a, e) ==
  CASE e.edit = "screen.add" -> e.v.layoutName \notin ScreenNames(a)
    [] e.edit = "cview.add" -> e.v.name \notin ScreenNames(a)
    [] e.edit = "cview.del" -> e.i < Len(a.cviews)
    [] e.edit \in {"res.put", "icon"} -> ~auto
    [] e.edit = "res.del" -> At_(a.res, e.id) # <<>>
    [] e.edit \in {"view.add", "view.del", "view.set", "view.move"} ->
         /\ e.i < Len(IF e.where = "screen" THEN a.screens ELSE a.cviews)
         /\ LET ids == Elems(Ids(LayoutOf(a, e))) IN
            IF e.edit = "view.add" THEN e.view.id \notin ids /\ (e.parent = "" \/ e.parent \in ids)
            ELSE e.id \in ids /\ (e.edit = "view.move" => (e.parent = "" \/ e.parent \in Elems(Ids(EditDel(LayoutOf(a, e), e.id)))))
    [] e.edit \in OnScreen ->
         /\ e.i < Len(a.screens)
         /\ LET s == a.screens[e.i + 1] IN
            CASE e.edit = "ev.add" -> ContId(e.v.et, e.v.target, e.v.name) \notin Conts(s)
              [] e.edit = "mb.add" -> \A i \in 1 .. Len(s.events) : ContId(s.events[i].et, s.events[i].target, s.events[i].name) # MbCont(e.v.id)
              [] e.edit \in {"ev.del", "ev.code", "ev.push"} -> e.j < Len(s.events)
              [] e.edit \in {"mb.del", "mb.code"} -> \E i \in 1 .. Len(s.mbs) : s.mbs[i].id = e.name
              [] e.edit \in {"var.del"} -> \E i \in 1 .. Len(s.vars) : s.vars[i].name = e.name
              [] OTHER -> TRUE
    [] OTHER -> TRUE

Edit == \E n \in 1 .. Len(Edits) : /\ Fits(api, Edits[n])
                                   /\ LET r == EditApi(api, Edits[n], Disk) IN api' = IF r.ok THEN r.v ELSE api
                                   /\ auto' = auto /\ hist' = Append(hist, n)
Reload(a, x) == LET m == Lower(a)  r == TLCEval([k \in Kinds |-> Read(k, Write(k, m[k]))]) IN Lift(Models(r), SavedFiles(a, x)).v
\* 0: save and load; -1: save and load without the resource files
SaveLoad == /\ hist # <<>> /\ hist[Len(hist)] > 0
            /\ api' = Reload(api, auto) /\ auto' = auto /\ hist' = Append(hist, 0)
SaveLoadBare == /\ hist # <<>> /\ hist[Len(hist)] > 0 /\ ~auto
                /\ api' = Reload(api, TRUE) /\ auto' = TRUE /\ hist' = Append(hist, -1)
Init == \E i \in 1 .. Len(Starts) : api = Starts[i] /\ from = i /\ auto = FALSE /\ hist = <<>>
Next == Len(hist) < Depth /\ from' = from /\ (Edit \/ SaveLoad \/ SaveLoadBare)
Dump == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson([start |-> from, h |-> hist])>>, IOEnv.DUMP)
Survives == RoundTrip(api, auto)
\* saving what was just loaded gives the same files again
Settled == LET b == Reload(api, auto) IN NormApi(Reload(b, auto), auto) = NormApi(b, auto)
\* an edit changes only the data files that hold what it edits
Frame == (hist' # hist /\ hist'[Len(hist')] > 0) =>
  LET a == Lower(api)  b == Lower(api') IN \A k \in Kinds \ Affects(Edits[hist'[Len(hist')]]) : Write(k, a[k]) = Write(k, b[k])
Framed == [][Frame]_<<api, auto, hist, from>>
Named == \A i \in 1 .. Len(api.screens) : api.screens[i].javaName = LogicName(api.screens[i].layoutName)
=============================================================================
