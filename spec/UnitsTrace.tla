----------------------------- MODULE UnitsTrace ----------------------------
(* Two runs of the same method on one instance, given to the code as it is  *)
(* and with all distances times fd and all demands times fq (fractions      *)
(* num/den; possibly as other number types, or with all coordinates moved). *)
(* Both are the instance I, each in its own units: the same outcome, number *)
(* of routes and cost.                                                      *)
EXTENDS Units, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
\* the two copies on a common scale: the integers of the first times den, those of the second times num
One == Scaled(I, r.fd[2], r.fq[2])
Two == Scaled(I, r.fd[1], r.fq[1])
Bad(o) == o \in {"hang", "error", "malformed"}
Clause ==
  IF \E k \in 1..2 : Bad(r.out[k]) THEN "failed with an error"
  ELSE IF r.out[1] # r.out[2] THEN "the units change the kind of the answer"
  ELSE IF r.out[1] # "plan" THEN "ok"
  ELSE IF ~Known(I, r.sol[1]) \/ ~Known(I, r.sol[2]) THEN "unknown customer"
  ELSE IF Len(Routes(r.sol[1])) # Len(Routes(r.sol[2])) THEN "the units change the number of routes"
  ELSE IF PlanCost(I, Routes(r.sol[1])) # PlanCost(I, Routes(r.sol[2])) THEN "the units change the cost"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ Assert(SameIn(One, Two, r.fd, r.fq), <<"not the same instance", tid>>)
        /\ v' = Clause
        /\ IF v' = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, v'>>)
=============================================================================
