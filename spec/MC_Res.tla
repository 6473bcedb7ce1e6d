------------------------------- MODULE MC_Res --------------------------------
(* Every history of at most Depth operations on a resource store: two ids, three types, files that
   exist or not.  Dumps each history for replay. *)
EXTENDS ResStore, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES store, fs, hist

IdSet == {"a", "b"}
FileSet == {[k |-> "path", id |-> "images/1/p.png", fn |-> "", t |-> "-"], [k |-> "str", id |-> "s", fn |-> "s.png", t |-> "Image"], [k |-> "u32", id |-> "7", fn |-> "u.mp3", t |-> "Sound"]}
NoFile == [k |-> "", id |-> "", fn |-> "", t |-> ""]
H(op, id, f, t) == [op |-> op, id |-> id, file |-> f, t |-> t]
PutR == \E id \in IdSet, f \in FileSet, t \in ResTypes :
          /\ hist' = Append(hist, H("put", id, f, t)) /\ fs' = fs
          /\ store' = IF PutOk(store, fs, id, f) THEN Place(store, id, f, t) ELSE store
RemoveR == \E id \in IdSet : hist' = Append(hist, H("remove", id, NoFile, "")) /\ store' = Without(store, id) /\ fs' = fs
Touch == fs = {} /\ fs' = {"images/1/p.png"} /\ hist' = Append(hist, H("touch", "", NoFile, "")) /\ store' = store
Rm == fs # {} /\ fs' = {} /\ hist' = Append(hist, H("rm", "", NoFile, "")) /\ store' = store
Init == store = NoStore /\ fs = {} /\ hist = <<>>
Next == Len(hist) < Depth /\ (PutR \/ RemoveR \/ Touch \/ Rm)
Dump == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)
\* an id stands for at most one resource
UniqueIds == NoDup(StoreIds(store))
\* looking an id up finds what was put there, with the type it was put under
Found == \A id \in IdSet : LET h == At_(store, id) IN Len(h) <= 1 /\ (h # <<>> => \E i \in 1 .. Len(store[Lists[h[1].t]]) : store[Lists[h[1].t]][i] = [id |-> id, file |-> h[1].file])
\* the last successful put decides
LastPut == \A id \in IdSet :
  LET at == {i \in 1 .. Len(hist) : hist[i].op \in {"put", "remove"} /\ hist[i].id = id}
  IN (at = {} \/ hist[CHOOSE i \in at : \A k \in at : k <= i].op = "remove") => At_(store, id) = <<>>
=============================================================================
