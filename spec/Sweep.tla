------------------------------- MODULE Sweep --------------------------------
(* The sweep: customers in circular order of their angle around the depot,  *)
(* taken one after another from a starting position in one direction.  A    *)
(* step either takes the next customer into the open route, or, when that   *)
(* would break a limit, closes the route.                                   *)
EXTENDS CVRP
\* ---- angle order, exact on integer coordinates relative to the depot
Half(p) == IF p[2] < 0 THEN 0 ELSE 1                 \* atan2 runs over (-pi, pi]
Vec(pts, c) == LET p == <<pts[c+1][1] - pts[1][1], pts[c+1][2] - pts[1][2]>> IN IF p = <<0, 0>> THEN <<1, 0>> ELSE p
Cross(a, b) == a[1]*b[2] - a[2]*b[1]
AngleLeq(a, b) == IF Half(a) # Half(b) THEN Half(a) < Half(b)
                  ELSE IF Cross(a, b) = 0 THEN a[1]*b[1] + a[2]*b[2] > 0 \/ a[1] > 0 ELSE Cross(a, b) > 0
SortedByAngle(pts, ord) == \A k \in 1..Len(ord)-1 : AngleLeq(Vec(pts, ord[k]), Vec(pts, ord[k+1]))
RhoSq(pts, c) == LET x == pts[c+1][1] - pts[1][1]  y == pts[c+1][2] - pts[1][2] IN x*x + y*y
\* the circular order read from position s (1-based) in direction inc (1 or -1)
Reading(ord, s, inc) == [k \in DOMAIN ord |-> ord[((s-1 + inc*(k-1)) % Len(ord)) + 1]]
\* ---- the process on a reading: <<routes so far, open route>>
RECURSIVE Run(_, _, _, _, _)
Run(I, q, k, open, rs) ==
  IF k > Len(q) THEN IF open = <<>> THEN rs ELSE Append(rs, open)
  ELSE IF open # <<>> /\ ~RouteOK(I, Append(open, q[k])) THEN Run(I, q, k, <<>>, Append(rs, open))
  ELSE Run(I, q, k+1, Append(open, q[k]), rs)
SweepRoutes(I, ord, s, inc) == Run(I, Reading(ord, s, inc), 1, <<>>, <<>>)
\* all routes that can be started at s: every prefix that fits
RECURSIVE Firsts(_, _, _)
Firsts(I, q, k) == IF k > Len(q) \/ ~RouteOK(I, SubSeq(q, 1, k)) THEN {} ELSE {SubSeq(q, 1, k)} \cup Firsts(I, q, k+1)
Better(I, mk, a, b) == IF mk THEN Len(a) < Len(b) \/ (Len(a) = Len(b) /\ PlanCost(I, a) < PlanCost(I, b))
                       ELSE PlanCost(I, a) < PlanCost(I, b) \/ (PlanCost(I, a) = PlanCost(I, b) /\ Len(a) < Len(b))
=============================================================================
