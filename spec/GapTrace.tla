------------------------------ MODULE GapTrace -----------------------------
(* Plans of the assignment heuristic with known seeds: the customers are    *)
(* with the seeds of one trial at least total detour (S: seed tables of the *)
(* trials), and the plan is no worse than that of the first trial (bound:   *)
(* its number of routes and cost).                                          *)
EXTENDS Gap, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
Clause ==
  IF r.out \in {"hang", "error", "malformed"} THEN "failed with an error"
  ELSE LET o == Optimum(I, r.S[1]) IN
    IF r.out = "none" THEN IF o < Huge THEN "no plan although the customers fit the seeds" ELSE "ok"
    ELSE IF r.out # "plan" THEN "no plan"
    ELSE IF ~Known(I, r.sol) THEN "unknown customer"
    ELSE LET R == Routes(r.sol) IN
      IF ~Covers(I, R) THEN "customers missing or repeated"
      ELSE IF \E k \in DOMAIN R : ~CapOK(I, R[k]) THEN "over the capacity"
      ELSE IF Len(R) > Len(r.S[1]) THEN "more routes than seeds"
      ELSE IF \A t \in DOMAIN r.S : Spent(I, r.S[t], R) > Optimum(I, r.S[t]) THEN "a cheaper assignment of the customers to the seeds exists"
      ELSE IF r.bound # <<>> /\ (IF r.mk /\ Len(R) # r.bound[1] THEN Len(R) > r.bound[1] ELSE PlanCost(I, R) > r.bound[2]) THEN "the first seeds give a better plan"
      ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid /\ v' = Clause
        /\ IF v' = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, v'>>)
=============================================================================
