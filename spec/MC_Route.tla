------------------------------ MODULE MC_Route -------------------------------
(* Six files of which at most Odd are not the sound one: damaged, empty, or the text of another file;
   and resource files given, not given, or missing.  Dumps each choice for replay. *)
EXTENDS Project, Json, CSV, IOUtils
CONSTANT Odd
VARIABLES pick, files, at

\* [kind: "view/0", lines]; number 0 is the sound one
Docs == ndJsonDeserialize(IOEnv.PARTS)
LinesOf(k, n) == Docs[CHOOSE i \in 1 .. Len(Docs) : Docs[i].kind = k \o "/" \o ToString(n)].lines
Variants(k) == {n \in 0 .. 9 : \E i \in 1 .. Len(Docs) : Docs[i].kind = k \o "/" \o ToString(n)}
Disk == {"images/1/p.png"}
Given(f) == CASE f = "none" -> [some |-> "0", l |-> <<>>] [] f = "good" -> [some |-> "1", l |-> <<[k |-> "path", id |-> "images/1/p.png", fn |-> "", t |-> "-"]>>]
              [] f = "gone" -> [some |-> "1", l |-> <<[k |-> "path", id |-> "images/1/gone.png", fn |-> "", t |-> "-"]>>] [] f = "empty" -> [some |-> "1", l |-> <<>>]
\* chosen file by file
Init == pick = [k \in Kinds |-> 0] /\ files \in {"none", "good", "gone", "empty"} /\ at = 0
Next == /\ at < 6 /\ at' = at + 1 /\ files' = files
        /\ \E n \in Variants(DocKinds[at + 1]) : pick' = [pick EXCEPT ![DocKinds[at + 1]] = n]
        /\ Cardinality({k \in Kinds : pick'[k] # 0}) <= Odd
Done == at = 6
Dump == Done => CSVWrite("%1$s", <<ToJson([pick |-> pick, files |-> files])>>, IOEnv.DUMP)
\* what each text says on its own
Says == TLCEval([k \in Kinds |-> [n \in Variants(k) |-> Read(k, LinesOf(k, n))]])
St == [k \in Kinds |-> Says[k][pick[k]].st]
FilesGood == files = "none" \/ FilesOk(Given(files).l, Disk)
\* the sound files are sound, and make up a project with the right resource files only
Sound == Done => \A k \in Kinds : pick[k] = 0 => St[k] = "ok"
Makes == (Done /\ \A k \in Kinds : pick[k] = 0) => Lift([k \in Kinds |-> Says[k][0].v], Given(files)).ok = (files \in {"none", "good"})
\* every damaged file is told from the sound one: it is refused or it says something else
Told == Done => \A k \in Kinds : pick[k] # 0 => St[k] # "ok" \/ Says[k][pick[k]].v # Says[k][0].v
=============================================================================
