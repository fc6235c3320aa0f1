------------------------------ MODULE SplitMC ------------------------------
(* The forward dynamic programme over a giant tour, one position at a time, *)
(* holds the cheapest feasible cut of every prefix; its optimum is that of  *)
(* all cuts of the circle, and with the per-route weight it is the cheapest *)
(* among those with the fewest routes.                                      *)
EXTENDS Split
CONSTANTS NC, VALS, CAPS, LIMS
VARIABLES D, lim, k, F
vars == <<D, lim, k, F>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> [x \in 1..NC+1 |-> (x*x) % 4], C |-> lim[1], L |-> lim[2]]
g == [x \in 1..NC |-> x]
Cost(w, s, m) == LET a == Arc(g, s, m) IN IF RouteOK(I, a) THEN RouteCost(I, a) + w ELSE INF
AC(w) == [s \in 1..NC |-> [m \in 1..NC |-> Cost(w, s, m)]]
Weight == 1 + PathCost(I, g \o <<1>>) + 2*FoldLeft(LAMBDA a, x: a + x, 0, I.D[1])
\* all ways to cut the circle opened before s
CutsOf(s, m) == {T \cup {m} : T \in SUBSET (1..m-1)}
RoutesOfCut(s, S) == LET o == SetToSortSeq(S, <) IN [j \in DOMAIN o |-> Arc(g, ((s-1 + (IF j = 1 THEN 0 ELSE o[j-1])) % NC) + 1, o[j] - (IF j = 1 THEN 0 ELSE o[j-1]))]
AllFit(p) == \A j \in DOMAIN p : RouteOK(I, p[j])
Init == /\ D \in {Mat(f) : f \in [Ends -> VALS]} /\ lim \in CAPS \X LIMS /\ k = 0 /\ F = <<0>>
        /\ \A c \in 1..NC : RouteOK(I, <<c>>)
Step == /\ k < NC /\ k' = k+1 /\ UNCHANGED <<D, lim>>
        /\ F' = Append(F, Min({IF F[j+1] >= INF \/ Cost(0, j+1, k'-j) >= INF THEN INF ELSE F[j+1] + Cost(0, j+1, k'-j) : j \in 0..k}))
Next == Step
Prefix_ == \A m \in 1..k : F[m+1] = Min({PlanCost(I, p) : p \in {x \in {RoutesOfCut(1, S) : S \in CutsOf(1, m)} : AllFit(x)}})
Circle == k = NC =>
  LET all == UNION {{x \in {RoutesOfCut(s, S) : S \in CutsOf(s, NC)} : AllFit(x)} : s \in 1..NC}
      fewest == Min({Len(p) : p \in all}) IN
  /\ F[NC+1] = Forward(I, g, AC(0), 1)
  /\ Optimum(I, g, AC(0)) = Min({PlanCost(I, p) : p \in all})
  /\ Optimum(I, g, AC(Weight)) = fewest*Weight + Min({PlanCost(I, p) : p \in {x \in all : Len(x) = fewest}})
=============================================================================
