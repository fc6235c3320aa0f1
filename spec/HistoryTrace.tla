----------------------------- MODULE HistoryTrace -----------------------------
(* Conformance of recorded histories.  A record is one process: world0 are  *)
(* the caller's objects at the start, fresh what each call returned in a    *)
(* process of its own, and steps the calls made, each with the contents of  *)
(* the caller's objects afterwards; between calls the caller may also edit  *)
(* them, which alone changes the world.  kept are the results as the caller     *)
(* sees them at the end.                                                    *)
EXTENDS History, SequencesExt, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, pos, world, memo, v
vars == <<tid, pos, world, memo, v>>
r == Trace[tid]
Init == /\ tid \in 1..Len(Trace) /\ pos = 1 /\ v = "" /\ world = Trace[tid].world0
        /\ memo = [c \in DOMAIN Trace[tid].fresh |-> Trace[tid].fresh[c]]
s == r.steps[pos]
Clause ==
  IF s.kind = "edit" THEN "ok"
  ELSE IF s.world # world THEN "a call modified its arguments"
  ELSE IF s.kind = "interrupted" THEN "ok"
  ELSE IF CanReturn(memo, s.call, s.res) THEN "ok" ELSE "the result depends on earlier calls"
Step == /\ v = "" /\ pos <= Len(r.steps) /\ UNCHANGED tid
        /\ LET c == Clause IN
           /\ v' = IF c = "ok" THEN "" ELSE c
           /\ pos' = pos + 1 /\ world' = s.world
           /\ memo' = IF s.kind \in {"interrupted", "edit"} THEN memo ELSE Learn(memo, s.call, s.res)
           /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c, pos>>)
End == /\ v = "" /\ pos > Len(r.steps) /\ UNCHANGED <<tid, pos, world, memo>>
       /\ LET c == IF \E k \in DOMAIN r.steps : r.kept[k] # r.steps[k].res THEN "an earlier result was modified by a later call" ELSE "ok" IN
          v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c, 0>>)
Next == Step \/ End
=============================================================================
