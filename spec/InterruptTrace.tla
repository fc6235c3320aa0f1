---------------------------- MODULE InterruptTrace ----------------------------
(* Conformance of interrupted calls: one record per interrupt point.        *)
EXTENDS Interrupt, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
Clause ==
  IF r.out = "swallowed" THEN "the interrupt was swallowed"
  ELSE IF r.out = "hang" THEN "did not end after the interrupt"
  ELSE IF r.out = "odd" THEN "the interrupt carries something that is not a plan"
  ELSE IF r.out # "int" THEN "the interrupt was turned into another failure"
  ELSE IF r.mut # "" THEN "the caller's data were left modified"
  ELSE IF Acceptable(I, r.sol) THEN "ok"
  ELSE IF r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 \/ ~Known(I, r.sol) THEN "the interrupt carries something that is not a plan"
  ELSE IF ~Covers(I, Routes(r.sol)) THEN "the salvaged plan misses or repeats customers"
  ELSE "the salvaged plan breaks a limit"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
