------------------------------ MODULE ResStore ------------------------------
(* Resources: the store an API project keeps (ids -> files, one list per type) and the resource
   files a project is loaded with.
     file  : [k |-> "path"|"str"|"u32", id, fn, t]    a path carries fn "" and t "-"
     store : [images, sounds, fonts : Seq([id, file])]
   fs is the set of paths that exist. *)
EXTENDS Base

RECURSIVE Split(_, _)
Split(s, sep) == LET i == IndexOf(s, sep) IN IF i = 0 THEN <<s>> ELSE <<IF i = 1 THEN "" ELSE SubSeq(s, 1, i - 1)>> \o Split(From(s, i + Len(sep)), sep)
PathParts(p) == Split(p, "/")
BaseOf(p) == LET q == PathParts(p) IN q[Len(q)]
DirType(p) == LET q == PathParts(p)  d == IF Len(q) >= 3 THEN q[Len(q) - 2] ELSE ""
              IN CASE d = "images" -> "Image" [] d = "sounds" -> "Sound" [] d = "fonts" -> "Font" [] d = "icons" -> "CustomIcon" [] OTHER -> ""
FullName(f) == IF f.k = "path" THEN BaseOf(f.id) ELSE f.fn
FileType(f) == IF f.k = "path" THEN DirType(f.id) ELSE f.t
Lists == [Image |-> "images", Sound |-> "sounds", Font |-> "fonts"]
ResTypes == DOMAIN Lists

(* ---------------------------------------------------------------- the list of files given to a load *)
FileOk(f, fs) == f.k = "path" => (f.id \in fs /\ DirType(f.id) # "")
FilesOk(list, fs) == \A i \in 1 .. Len(list) : FileOk(list[i], fs)
OfType(list, t) == SelectSeq(list, LAMBDA f : FileType(f) = t)
\* the file of a type with a full name: <<>> or <<file>>
FileFor(list, t, name) == SelectSeq(list, LAMBDA f : FileType(f) = t /\ FullName(f) = name)
\* two files that claim the same place: which one is kept is left open
Clash(list) == \E i, k \in 1 .. Len(list) : i # k /\ FileType(list[i]) = FileType(list[k]) /\ (FullName(list[i]) = FullName(list[k]) \/ FileType(list[i]) = "CustomIcon")
Keyed(list, t) == {[key |-> FullName(list[i]), file |-> list[i]] : i \in {n \in 1 .. Len(list) : FileType(list[n]) = t}}
\* the maps a reader has to build, as sets
MapsOf(list) == [icon |-> OfType(list, "CustomIcon"), images |-> Keyed(list, "Image"), sounds |-> Keyed(list, "Sound"), fonts |-> Keyed(list, "Font")]
SeenMaps(o) == [icon |-> o.icon, images |-> AsSet(o.images), sounds |-> AsSet(o.sounds), fonts |-> AsSet(o.fonts)]

(* ---------------------------------------------------------------- the store *)
NoStore == [images |-> <<>>, sounds |-> <<>>, fonts |-> <<>>]
At_(store, id) ==   \* <<>> or <<[t, file]>>
  Flat([n \in 1 .. 3 |-> LET t == <<"Image", "Sound", "Font">>[n]  q == SelectSeq(store[Lists[t]], LAMBDA e : e.id = id)
                         IN [i \in 1 .. Len(q) |-> [t |-> t, file |-> q[i].file]]])
Typed(f, t) == IF f.k = "path" THEN f ELSE [f EXCEPT !.t = t]
PutOk(store, fs, id, f) == At_(store, id) = <<>> /\ (f.k = "path" => f.id \in fs)
Place(store, id, f, t) == [store EXCEPT ![Lists[t]] = Append(@, [id |-> id, file |-> Typed(f, t)])]
\* a loaded store may have an id under several types: one of them is found, and it is that one that is removed
TakenFrom(store, id, t) == [store EXCEPT ![Lists[t]] = SelectSeq(@, LAMBDA e : e.id # id)]
Without(store, id) == [l \in DOMAIN store |-> SelectSeq(store[l], LAMBDA e : e.id # id)]
StoreIds(store) == [i \in 1 .. Len(store.images) |-> store.images[i].id] \o [i \in 1 .. Len(store.sounds) |-> store.sounds[i].id] \o [i \in 1 .. Len(store.fonts) |-> store.fonts[i].id]
=============================================================================
