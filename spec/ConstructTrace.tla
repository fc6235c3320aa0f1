--------------------------- MODULE ConstructTrace --------------------------
(* Conformance of plans returned by the growing construction heuristics:    *)
(* MATCH when some run of the machine of Construct, guided by the returned  *)
(* plan, ends with exactly this plan.                                       *)
EXTENDS Construct, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, goal, v
vars == <<cvars, tid, goal, v>>
r == Trace[tid]
I == Insts[r.i]

Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE IF ~IsPermutationOf(AllStops(Routes(r.sol)), Customers(I)) THEN "customers missing or repeated"
  ELSE "ok"
Init == /\ tid \in 1..Len(Trace) /\ v = "" /\ goal = {}
        /\ CInit(Insts[Trace[tid].i], Trace[tid].cf, {})
Judge == /\ v = "" /\ UNCHANGED <<cvars, tid>>
         /\ LET c == Clause IN
             IF c = "ok" THEN v' = "run" /\ goal' = PlanSet(Routes(r.sol))
             ELSE v' = c /\ PrintT(<<"BAD", tid, c>>) /\ UNCHANGED goal
Run == v = "run" /\ CNext(I, r.cf, goal) /\ UNCHANGED <<tid, goal, v>>
Match == /\ v = "run" /\ ph = "done" /\ fin = goal /\ v' = "match" /\ PrintT(<<"MATCH", tid>>)
         /\ UNCHANGED <<cvars, tid, goal>>
Next == Judge \/ Run \/ Match
=============================================================================
