----------------------------- MODULE FinishTrace ---------------------------
(* Plans of methods that finish with a local search: no move of that search *)
(* (within a route, of a customer to another route, or of edges of the      *)
(* whole plan) makes them cheaper within the limits.                        *)
EXTENDS Moves, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
rs == Routes(r.sol)
IntraImproves(op) == \E k \in DOMAIN rs : \E x \in Intra(op, rs[k]) : RouteCost(I, x) < RouteCost(I, rs[k])
\* qs: the routes, with an unused vehicle when one may be added
PointImproves(qs) == \E a, b \in DOMAIN qs : a # b /\ \E x \in OnePoint(qs[a], qs[b]) :
                        RouteOK(I, x[1]) /\ RouteOK(I, x[2]) /\ PlanCost(I, x) < RouteCost(I, qs[a]) + RouteCost(I, qs[b])
PlanImproves == LET c == PlanCost(I, rs) IN \E x \in PlanExchanges(rs) : PlanCost(I, x) < c /\ AllOK(I, x)
Improves(op) == IF op = "plan" THEN PlanImproves
                ELSE IF op = "1point" THEN PointImproves(IF r.mk THEN rs ELSE Append(rs, <<>>))
                ELSE IntraImproves(op)
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out = "refused" THEN "ok"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 \/ ~Known(I, r.sol) THEN "malformed plan"
  ELSE LET bad == {k \in DOMAIN r.ops : Improves(r.ops[k])} IN
       IF bad = {} THEN "ok"
       ELSE "can still be improved by " \o r.ops[CHOOSE k \in bad : TRUE]
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
