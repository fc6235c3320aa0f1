----------------------------- MODULE TsplibTrace -----------------------------
(* Recorded reads and writes of files against Tsplib.                        *)
EXTENDS Tsplib, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, v
\* ---- C21: q.m nodes in the file, depot position q.dep, matrix q.D in units 1/q.xs
WantM(q) == Matrix(q.fmt, q.m, q.nums)
MatrixClause(q) ==
  IF Len(q.D) # q.m \/ \E i \in DOMAIN q.D : Len(q.D[i]) # q.m THEN "matrix has another size"
  ELSE IF \E i, j \in 1..q.m : q.D[i][j] # q.D[j][i] THEN "matrix is not symmetric"
  ELSE IF q.type = "EXPLICIT" THEN
    IF q.D # PermuteM(q.dep, WantM(q)) THEN "a weight is not the one listed" ELSE "ok"
  ELSE LET P == Permute(q.dep, q.pts) IN
    IF \E i \in 1..q.m : q.D[i][i] # 0 THEN "a self-distance is not zero"
    ELSE IF \E i, j \in 1..q.m : i < j /\ ~IsDistance(q.type, P[i], P[j], q.cs, q.D[i][j], q.xs)
      THEN "a distance is not the TSPLIB distance" ELSE "ok"
ReadClause(q) ==
  IF q.reject THEN IF q.out = "exc" THEN "ok" ELSE "a broken file was accepted"
  ELSE IF q.out # "ret" THEN "failed with an error"
  ELSE IF q.size # q.m-1 THEN "wrong number of customers"
  ELSE IF q.rcap # q.cap THEN "wrong capacity"
  ELSE IF q.rtype # q.type THEN "wrong distance type"
  ELSE IF q.rdem # (IF q.dem = <<>> THEN <<>> ELSE Permute(q.dep, q.dem)) THEN "wrong demands"
  ELSE IF q.rpts # (IF q.coords THEN Permute(q.dep, q.pts) ELSE <<>>) THEN "wrong coordinates"
  ELSE IF q.rdd # (IF q.dd THEN Permute(q.dep, q.pts) ELSE <<>>) THEN "wrong display coordinates"
  ELSE MatrixClause(q)
\* ---- C22
Sub(M, s) == [a \in DOMAIN s |-> [b \in DOMAIN s |-> M[s[a]+1][s[b]+1]]]
WriteClause(q) ==
  LET s == q.sel IN
  IF q.size # Len(s)-1 THEN "wrong number of customers"
  ELSE IF q.D # Sub(q.M, s) THEN "distances changed"
  ELSE IF q.vrp /\ q.rdem # [a \in DOMAIN s |-> IF a = 1 THEN 0 ELSE IF q.dem = <<>> THEN 4 ELSE q.dem[s[a]+1]] THEN "demands changed"
  ELSE IF q.vrp /\ q.cap # 0 /\ q.rcap # q.cap THEN "capacity changed"
  ELSE IF q.vrp /\ q.rL # q.L THEN "route limit changed"
  ELSE "ok"
SolClause(q) ==
  IF q.rsol # Join(RoutesOf(q.sol)) THEN "plan changed"
  ELSE IF q.rcost # q.cost THEN "cost changed"
  ELSE IF q.rk # Len(RoutesOf(q.sol)) THEN "wrong number of routes" ELSE "ok"
VrphClause(q) == IF q.line # SignedLine(q.sol) THEN "signed line is wrong" ELSE "ok"
\* absent fields are <<>>, values in quarters
SideClause(q) ==
  IF Cardinality({q.sts[k] : k \in DOMAIN q.sts}) > 1
  THEN IF q.out = "exc" THEN "ok" ELSE "differing service times were accepted"
  ELSE IF q.out # "ret" THEN "failed with an error"
  ELSE IF q.rK # q.K THEN "wrong number of vehicles"
  ELSE IF q.rL # q.L THEN "wrong route limit"
  ELSE IF q.rST # (IF q.sts # <<>> THEN <<q.sts[1]>> ELSE q.ST) THEN "wrong service time" ELSE "ok"
Clause(q) ==
  CASE q.kind = "read" -> ReadClause(q)
    [] q.kind = "side" -> SideClause(q)
    [] OTHER -> IF q.out # "ret" THEN "failed with an error"
                ELSE CASE q.kind = "write" -> WriteClause(q)
                       [] q.kind = "sol" -> SolClause(q)
                       [] q.kind = "vrph" -> VrphClause(q)
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = ""
        /\ LET c == Clause(Trace[tid]) IN
             /\ v' = c
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
        /\ UNCHANGED tid
=============================================================================
