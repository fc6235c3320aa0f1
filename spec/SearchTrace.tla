---------------------------- MODULE SearchTrace ----------------------------
(* The local search as a machine over plans.  State: the current plan (a    *)
(* set of routes up to direction) and the improving results operators have  *)
(* offered for routes of the plan.  Steps: an operator call, whose routes   *)
(* must all be routes of the current plan; or the acceptance of one of the  *)
(* offered results, which replaces exactly the routes it was computed from. *)
(* A recorded run (all operator calls with their results, then the returned *)
(* plan) is accepted (MATCH) when some behaviour explains it; the returned  *)
(* plan itself must be feasible, not worse and locally optimal.             *)
EXTENDS Moves, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, k, plan, pool, v
vars == <<tid, k, plan, pool, v>>
r == Trace[tid]
I == Insts[r.i]
Set(rs) == PlanSet(rs)

\* ordered selections of distinct routes
Picks(rs, m) == IF m = 1 THEN {<<rs[a]>> : a \in DOMAIN rs}
  ELSE IF m = 2 THEN {<<rs[x[1]], rs[x[2]]>> : x \in {y \in (DOMAIN rs) \X (DOMAIN rs) : y[1] # y[2]}}
  ELSE {<<rs[x[1]], rs[x[2]], rs[x[3]]>> :
          x \in {y \in (DOMAIN rs) \X (DOMAIN rs) \X (DOMAIN rs) : y[1] # y[2] /\ y[2] # y[3] /\ y[1] # y[3]}}
Arity(op) == IF op \in {"2opt", "3opt", "relocate", "exchange"} THEN 1 ELSE IF op = "chain" THEN 3 ELSE 2
Improvable(rs, op) == \E p \in Picks(rs, Arity(op)) : \E d \in Deltas(I, op, p) : d < 0

WrongRecord(e) == \/ \E a \in DOMAIN e.rs : e.cost # <<>> /\ e.cost[a] # RouteCost(I, e.rs[a])
                  \/ I.C # 0 /\ \E a \in DOMAIN e.rs : e.dem # <<>> /\ e.dem[a] # RouteLoad(I, e.rs[a])
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE LET rs == Routes(r.sol) IN
   IF ~SameElems(Customers_(rs), Customers_(r.start)) THEN "customers were lost or duplicated"
   ELSE IF \E a \in DOMAIN rs : ~CapOK(I, rs[a]) THEN "capacity exceeded"
   ELSE IF \E a \in DOMAIN rs : ~LenOK(I, rs[a]) THEN "route cost exceeded"
   ELSE IF PlanCost(I, rs) > PlanCost(I, r.start) THEN "worse than the start"
   ELSE IF r.complete /\ \E op \in Range(r.ops) : Improvable(rs, op) THEN "not a local optimum"
   \* nothing was accepted, so the empty route of the start is still there to move to
   ELSE IF r.complete /\ r.spare /\ PlanCost(I, rs) = PlanCost(I, r.start)
           /\ \E op \in Range(r.ops) : Arity(op) = 2 /\ Improvable(Append(r.start, <<>>), op) THEN "the empty route of the start was not used"
   ELSE IF \E e \in Range(r.calls) : WrongRecord(e) THEN "an operator was given wrong route costs or demands"
   ELSE "ok"

Init == tid \in 1..Len(Trace) /\ k = 0 /\ plan = {} /\ pool = {} /\ v = ""
Judge == /\ k = 0 /\ v = ""
         /\ LET c == Clause IN
             IF c = "ok" THEN v' = "run" /\ k' = 1 /\ plan' = Set(r.start)
             ELSE v' = c /\ PrintT(<<"BAD", tid, c>>) /\ UNCHANGED <<k, plan>>
         /\ UNCHANGED <<tid, pool>>
Call == /\ v = "run" /\ k <= Len(r.calls)
        /\ LET e == r.calls[k] IN
            /\ \A a \in DOMAIN e.rs : e.rs[a] = <<>> \/ CanonRoute(e.rs[a]) \in plan
            /\ pool' = IF e.out = "none" THEN pool ELSE pool \cup {<<Set(e.rs), Set(e.new)>>}
        /\ k' = k+1 /\ UNCHANGED <<tid, plan, v>>
Accept == /\ v = "run"
          /\ \E p \in pool :
              /\ p[1] \subseteq plan
              /\ plan' = (plan \ p[1]) \cup p[2]
              /\ pool' = {q \in pool : q[1] \cap p[1] = {}}
          /\ UNCHANGED <<tid, k, v>>
Finish == /\ v = "run" /\ k = Len(r.calls)+1
          /\ plan = Set(Routes(r.sol))
          /\ v' = "match" /\ PrintT(<<"MATCH", tid>>)
          /\ UNCHANGED <<tid, k, plan, pool>>
Next == Judge \/ Call \/ Accept \/ Finish
=============================================================================
