---------------------------- MODULE SuppressTrace --------------------------
(* Plans returned by the perturbed savings heuristic: each is one of the    *)
(* best plans of the rounds of the machine.                                 *)
EXTENDS Suppress, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v, all
vars == <<svars, tid, v, all>>
r == Trace[tid]
I == Insts[r.i]
Form ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE IF ~IsPermutationOf(AllStops(Routes(r.sol)), Customers(I)) THEN "customers missing or repeated"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = "" /\ all = {} /\ SInit
Judge == /\ v = "" /\ UNCHANGED <<svars, tid, all>>
         /\ LET c == Form IN IF c = "ok" THEN v' = "run" ELSE v' = c /\ PrintT(<<"BAD", tid, c>>)
Go == /\ v = "run" /\ round < Rounds(I, r.lp) /\ Round(I, r.mk, r.lp) /\ all' = all \cup best' /\ UNCHANGED <<tid, v>>
\* all only remembers plans that were best at some time, to name the fault
End == /\ v = "run" /\ round = Rounds(I, r.lp) /\ UNCHANGED <<svars, tid, all>>
       /\ LET R == PlanSet(Routes(r.sol))
              c == IF R \in best THEN "ok"
                   ELSE IF R \in all THEN "a later round found a better plan"
                   ELSE "no best plan of the rounds" IN
           v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
Next == Judge \/ Go \/ End
=============================================================================
