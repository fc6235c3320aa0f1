----------------------------- MODULE IdleTrace -----------------------------
(* Two runs of the same method, whose limits differ only where they are too *)
(* large to matter: the same outcome, number of routes and cost.            *)
EXTENDS Idle, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
Lim(k) == [C |-> r.lim[k][1], L |-> r.lim[k][2]]
Bad(o) == o \in {"hang", "error", "malformed"}
Clause ==
  IF \E k \in 1..2 : Bad(r.out[k]) THEN "failed with an error"
  ELSE IF r.out[1] # r.out[2] THEN "an idle limit changes the kind of the answer"
  ELSE IF r.out[1] # "plan" THEN "ok"
  ELSE IF ~Known(I, r.sol[1]) \/ ~Known(I, r.sol[2]) THEN "unknown customer"
  ELSE IF Len(Routes(r.sol[1])) # Len(Routes(r.sol[2])) THEN "an idle limit changes the number of routes"
  ELSE IF PlanCost(I, Routes(r.sol[1])) # PlanCost(I, Routes(r.sol[2])) THEN "an idle limit changes the cost"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ Assert(SameLimits(I, Lim(1), Lim(2)) /\ Lim(1) # Lim(2), <<"the limits are not idle", tid>>)
        /\ v' = Clause
        /\ IF v' = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, v'>>)
=============================================================================
