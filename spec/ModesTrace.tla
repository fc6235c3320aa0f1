----------------------------- MODULE ModesTrace -----------------------------
(* One call made in several processes that differ only in how Python was    *)
(* started or how much is logged.  The first answer settles what the call   *)
(* returns; every further mode may only repeat it.                          *)
EXTENDS History, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, pos, memo, v
vars == <<tid, pos, memo, v>>
r == Trace[tid]
Init == tid \in 1..Len(Trace) /\ pos = 1 /\ v = "" /\ memo = [c \in {"call"} |-> Unknown]
Clause == IF r.res[pos] = "missing" THEN "a mode gives no answer"
          ELSE IF CanReturn(memo, "call", r.res[pos]) THEN "ok" ELSE "another result under " \o r.modes[pos]
Step == /\ v = "" /\ pos <= Len(r.res) /\ UNCHANGED tid
        /\ LET c == Clause IN
           /\ v' = IF c = "ok" THEN "" ELSE c
           /\ pos' = pos+1 /\ memo' = Learn(memo, "call", r.res[pos])
           /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
Next == Step
=============================================================================
