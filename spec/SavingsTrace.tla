---------------------------- MODULE SavingsTrace ---------------------------
(* Conformance of plans returned by the parallel savings heuristic with any *)
(* of its savings functions: each is one the process of Savings can produce *)
EXTENDS Savings, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE LET rs == Routes(r.sol) IN
   IF ~IsPermutationOf(AllStops(rs), Customers(I)) THEN "customers missing or repeated"
   ELSE IF \E k \in DOMAIN rs : ~RouteOK(I, rs[k]) THEN "joined routes against a limit"
   ELSE SavingsClause(I, r.f, r.mk, PlanSet(rs))
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
