------------------------------- MODULE CVRP -------------------------------
(* Instances, plans and the declarative meaning of cost and feasibility.    *)
(* An instance is a record [n, D, d, C, L]: customers 1..n, depot 0, D a    *)
(* tuple of rows (D[i+1][j+1] is the distance i-j), d a tuple of demands    *)
(* (d[i+1]), C the capacity and L the maximum route cost, 0 meaning absent. *)
(* A route is a sequence of customers without the depot; a plan is a set or *)
(* sequence of routes; a tour is a plan written as one sequence of stops.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Dist(I, a, b) == I.D[a+1][b+1]
Dem(I, c)     == I.d[c+1]
Customers(I)  == 1..I.n
Nodes(I)      == 0..I.n

\* cost of consecutive stops (no depot added)
PathCost(I, p) == FoldLeftDomain(LAMBDA acc, k: IF k = 1 THEN 0 ELSE acc + Dist(I, p[k-1], p[k]), 0, p)
LoadOf(I, p)   == FoldLeft(LAMBDA acc, c: acc + Dem(I, c), 0, p)
Closed(r)      == <<0>> \o r \o <<0>>
RouteCost(I, r) == IF r = <<>> THEN 0 ELSE PathCost(I, Closed(r))
RouteLoad(I, r) == LoadOf(I, r)

CapOK(I, r) == I.C = 0 \/ RouteLoad(I, r) <= I.C
LenOK(I, r) == I.L = 0 \/ RouteCost(I, r) <= I.L
RouteOK(I, r) == CapOK(I, r) /\ LenOK(I, r)

\* every element of a sequence of sequences
AllStops(rs) == FoldLeft(LAMBDA acc, r: acc \o r, <<>>, rs)
IsPermutationOf(p, S) == Len(p) = Cardinality(S) /\ Range(p) = S

\* A sequence of routes is a complete feasible plan
Covers(I, rs)   == IsPermutationOf(AllStops(rs), Customers(I))
Feasible(I, rs) == /\ Covers(I, rs)
                   /\ \A k \in DOMAIN rs : RouteOK(I, rs[k])
PlanCost(I, rs) == FoldLeft(LAMBDA acc, r: acc + RouteCost(I, r), 0, rs)

\* ---- tours: sequences of stops with depot visits as separators
RECURSIVE SplitAt0(_, _, _, _)
SplitAt0(t, k, cur, acc) ==
  IF k > Len(t) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF t[k] = 0 THEN SplitAt0(t, k+1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE SplitAt0(t, k+1, Append(cur, t[k]), acc)
Routes(t) == SplitAt0(t, 1, <<>>, <<>>)          \* non-empty routes of a tour
TourOf(rs) == FoldLeft(LAMBDA acc, r: IF r = <<>> THEN acc ELSE acc \o r \o <<0>>, <<0>>, rs)
K(rs) == Cardinality({k \in DOMAIN rs : rs[k] # <<>>})

\* a stop sequence over known nodes (guards every other operator: verdicts stay total)
Known(I, t) == \A k \in DOMAIN t : t[k] \in Nodes(I)

\* undirected identity of routes and plans (for symmetric distances)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                    ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLess(a, b, k+1)
CanonRoute(r) == IF r # <<>> /\ r[Len(r)] < r[1] THEN Reverse(r) ELSE r
PlanSet(rs) == {CanonRoute(rs[k]) : k \in {j \in DOMAIN rs : rs[j] # <<>>}}

Symmetric(I) == \A a, b \in Nodes(I) : Dist(I, a, b) = Dist(I, b, a)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
