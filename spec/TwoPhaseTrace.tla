---------------------------- MODULE TwoPhaseTrace --------------------------
(* Plans returned by the two-phase heuristic: MATCH when a run of the       *)
(* machine builds the returned groups of customers in one of its phases,    *)
(* and where all routes of both phases are small enough for their shortest  *)
(* tours to be certain, the cheaper of the two plans is the one returned.   *)
EXTENDS TwoPhase, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, goal, v
vars == <<wvars, tid, goal, v>>
r == Trace[tid]
I == Insts[r.i]
Groups(t) == {Range(q) : q \in Range(Routes(t))}
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE IF ~IsPermutationOf(AllStops(Routes(r.sol)), Customers(I)) THEN "customers missing or repeated"
  ELSE IF \E q \in Range(Routes(r.sol)) : Len(q) <= 3 /\ RouteCost(I, q) > SetCost(I, Range(q)) THEN "a small route is not a shortest tour"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = "" /\ goal = {} /\ WInit(Insts[Trace[tid].i])
Judge == /\ v = "" /\ UNCHANGED <<wvars, tid>>
         /\ LET c == Clause IN
             IF c = "ok" THEN v' = "run" /\ goal' = Groups(r.sol)
             ELSE v' = c /\ PrintT(<<"BAD", tid, c>>) /\ UNCHANGED goal
\* nothing to decide between the phases unless the costs of both are certain
Weigh == Small(p1)
Guide(k, x) == p1 = goal \/ \E G \in goal : rts[k] \cup {x} \subseteq G
Run == v = "run" /\ ~(ph \in {"turn", "fill2"} /\ p1 = goal /\ ~Weigh) /\ WNext(I, r.c, Guide) /\ UNCHANGED <<tid, goal, v>>
P2 == Range(rts)
Done == /\ v = "run"
        /\ \/ ph = "turn" /\ p1 = goal /\ ~Weigh
           \/ ph = "failed" /\ p1 = goal
           \/ ph = "built" /\ p1 = goal /\ (Small(P2) /\ Weigh => GroupsCost(I, p1) <= GroupsCost(I, P2))
           \/ ph = "built" /\ P2 = goal /\ (Small(P2) /\ Weigh => GroupsCost(I, P2) <= GroupsCost(I, p1))
        /\ v' = "match" /\ PrintT(<<"MATCH", tid>>) /\ UNCHANGED <<wvars, tid, goal>>
Next == Judge \/ Run \/ Done
=============================================================================
