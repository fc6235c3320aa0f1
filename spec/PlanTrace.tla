----------------------------- MODULE PlanTrace -----------------------------
(* Conformance of returned plans: every record is one outcome of a real     *)
(* solver call; a returned tour is replayed stop by stop on the machine of  *)
(* Routing, each stop having to be an enabled action.  VMODE selects which  *)
(* guards decide (cover | capacity | cost | all); the other guards are then *)
(* left to their own property and only their effect is applied.             *)
EXTENDS Routing, Json, IOUtils

Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
Mode  == IOEnv.VMODE

VARIABLES tid, pos, v
vars == <<rvars, tid, pos, v>>
r == Trace[tid]
I == Insts[r.i]

\* outcomes that are not a plan: what the specification allows
OutcomeClause(q, J) ==
  IF q.out = "plan" THEN ""
  ELSE IF q.out = "refused" THEN
        IF q.mayrefuse THEN "stop" ELSE "refused a supported request"
  ELSE IF q.out = "int-none" THEN "stop"     \* an interrupt may carry nothing
  ELSE IF q.out = "none" THEN
        IF q.mayrefuse THEN "stop" ELSE "no solution returned"
  ELSE IF q.out = "hang" THEN "did not terminate"
  ELSE IF q.out = "swallowed" THEN "interrupt did not end the call"
  ELSE IF q.out = "malformed" THEN "result is not a sequence of stops"
  ELSE "failed with an error"

Covering == Mode \in {"cover", "all"}
Init == /\ tid \in 1..Len(Trace) /\ pos = 0 /\ RInit
        /\ v = "run"

Judge(c) == /\ v' = c
            /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
Stay == UNCHANGED <<rvars, tid, pos>>

Begin == /\ pos = 0 /\ v = "run"
         /\ LET c == OutcomeClause(r, I) IN
            IF c = "stop" \/ (c # "" /\ ~Covering) THEN Judge("ok") /\ Stay
            ELSE IF c # "" THEN Judge(c) /\ Stay
            ELSE IF r.mut # "" /\ Mode = "all" THEN Judge(r.mut) /\ Stay
            ELSE IF r.sol = <<>> THEN Judge(IF Covering THEN "empty plan" ELSE "ok") /\ Stay
            ELSE IF r.sol[1] # 0 /\ Covering THEN Judge("does not start at the depot") /\ Stay
            ELSE /\ pos' = IF r.sol[1] = 0 THEN 1 ELSE 0
                 /\ UNCHANGED <<rvars, tid>>
                 /\ IF r.sol[1] # 0 THEN Judge("ok") ELSE UNCHANGED v

Counts(c) == CASE c = "" -> FALSE
               [] c = "capacity exceeded"   -> Mode \in {"capacity", "all"}
               [] c = "route cost exceeded" -> Mode \in {"cost", "all"}
               [] OTHER -> Covering

Step == /\ pos >= 1 /\ pos < Len(r.sol) /\ v = "run"
        /\ LET c == r.sol[pos+1]
               why == IF c = 0 THEN ReturnBlocked(I) ELSE ServeBlocked(I, c)
           IN IF Counts(why) THEN Judge(why) /\ Stay
              ELSE IF c \notin Nodes(I) THEN Judge("ok") /\ Stay
              ELSE /\ pos' = pos + 1 /\ UNCHANGED <<tid, v>>
                   /\ IF c = 0 THEN ReturnEffect(I) ELSE ServeEffect(I, c)

End == /\ pos >= 1 /\ pos = Len(r.sol) /\ v = "run" /\ Stay
       /\ Judge(IF ~Covering THEN "ok"
                ELSE IF at # 0 THEN "does not end at the depot"
                ELSE IF served # Customers(I) THEN "customer not served"
                ELSE "ok")
Next == Begin \/ Step \/ End
=============================================================================
