------------------------------- MODULE MC_Codes ------------------------------
(* The tables and scalars on their own: every table is one to one, flags and dates are inverses of
   each other.  Days runs over a stretch of days, step by step. *)
EXTENDS Codes, Json, CSV, IOUtils
CONSTANTS LastDay, Step
VARIABLE z
Init == z \in {0, -719528}          \* 1 January 1970, 1 January of the year 0
Next == z + Step <= LastDay /\ z' = (IF z < 0 THEN z + 53 * Step ELSE z + Step)
ASSUME Bijective(Components)
ASSUME Bijective(EventTypes)
ASSUME Bijective(VarTypes)
ASSUME Bijective(BlockTypes)
ASSUME Bijective(ListTypes)
ASSUME Bijective(Categories)
ASSUME Bijective(ViewCodes)
ASSUME Bijective(ScaleTypes)
ASSUME \A e \in DOMAIN Enums : Bijective(Enums[e])
ASSUME \A n \in 0 .. 15 : LET f == OptFlags(n) IN OptCode(f.toolbar, f.fullscreen, f.drawer, f.fab) = n
ASSUME \A k \in BlockKinds : BlockKind(BlockLetter(k), BlockTypeName(k, "x")) = Ok(k)
\* days and dates are inverses, and days follow each other
Calendar == LET c == CivilOf(z) IN DaysOf(c[1], c[2], c[3]) = z /\ c[2] \in 1 .. 12 /\ c[3] \in 1 .. MonthLen(c[1], c[2])
Follows == LET c == CivilOf(z)  n == CivilOf(z + 1) IN
  \/ n = <<c[1], c[2], c[3] + 1>> \/ (c[3] = MonthLen(c[1], c[2]) /\ (n = <<c[1], c[2] + 1, 1>> \/ (c[2] = 12 /\ n = <<c[1] + 1, 1, 1>>)))
Texts == \A s \in {0, 1, 59, 60, 3599, 3600, 36000, 86399} : ReadDate(WriteDate(z, s)) = Ok([days |-> ToString(z), secs |-> ToString(s)])
Dump == z >= 0 => LET c == CivilOf(z) IN (c[3] = 1 \/ c[3] = MonthLen(c[1], c[2]) \/ z % 97 = 0) => CSVWrite("%1$s", <<ToJson([days |-> ToString(z), text |-> WriteDate(z, (z * 7919) % 86400), secs |-> ToString((z * 7919) % 86400)])>>, IOEnv.DUMP)
=============================================================================
