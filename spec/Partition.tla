----------------------------- MODULE Partition -----------------------------
(* Splitting the customers into routes exactly: shortest tours of customer  *)
(* sets, the fewest vehicles that hold all loads, and the cheapest way to   *)
(* serve everybody once with routes from a given collection.  Each is       *)
(* computed over sets of customers, smaller sets first; PartitionMC checks  *)
(* them against their definitions over all partitions.                      *)
EXTENDS CVRP
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
INF == 1000000000
SumDem(I, S) == FoldSet(LAMBDA c, a: a + Dem(I, c), 0, S)
SetFits(I, S) == I.C = 0 \/ SumDem(I, S) <= I.C

\* ---- shortest closed tours: f[<<S, j>>] is a shortest path from the depot
\* through all of S that ends at j
Ends(Ss) == UNION {{<<S, j>> : j \in S} : S \in Ss}
NextEnds(I, f, k) ==
  TLCEval([p \in Ends(kSubset(k, Customers(I))) |->
    IF k = 1 THEN Dist(I, 0, p[2])
    ELSE MinS({f[<<p[1] \ {p[2]}, i>>] + Dist(I, i, p[2]) : i \in p[1] \ {p[2]}})])
RECURSIVE AllEnds(_, _, _, _)
AllEnds(I, f, k, acc) == IF k > I.n THEN acc
  ELSE LET g == NextEnds(I, f, k) IN AllEnds(I, g, k+1, acc @@ [S \in kSubset(k, Customers(I)) |-> MinS({g[<<S, j>>] + Dist(I, j, 0) : j \in S})])
\* the cost of a shortest tour of every non-empty set of customers
TourCosts(I) == TLCEval(AllEnds(I, <<>>, 1, <<>>))

\* ---- the fewest vehicles: sets that fit, the one with the smallest customer first
RECURSIVE FewestFrom(_, _, _)
FewestFrom(I, f, k) ==          \* f: fewest vehicles of every set of fewer than k customers
  IF k > I.n THEN f
  ELSE FewestFrom(I, TLCEval(f @@ [S \in kSubset(k, Customers(I)) |->
         IF SetFits(I, S) THEN 1
         ELSE 1 + MinS({f[S \ P] : P \in {Q \in SUBSET S : Q # S /\ MinS(S) \in Q /\ SetFits(I, Q)}})]), k+1)
FewestVehicles(I) == FewestFrom(I, [S \in {{}} |-> 0], 1)[Customers(I)]

\* ---- the cheapest exact cover by routes of a collection with at most m of them.
\* ps: a set of <<customers of the route, its cost>>
RECURSIVE CoverFrom(_, _, _, _)
CoverFrom(N, ps, f, k) ==       \* f: best[S][m] for sets of fewer than k customers
  IF k > N THEN f
  ELSE CoverFrom(N, ps, TLCEval(f @@ [S \in kSubset(k, 1..N) |->
         TLCEval([m \in 0..N |-> IF m = 0 THEN INF ELSE
            MinS({INF} \cup {p[2] + f[S \ p[1]][m-1] : p \in {q \in ps : MinS(S) \in q[1] /\ q[1] \subseteq S /\ f[S \ q[1]][m-1] < INF}})])]), k+1)
\* cheapest[m]: the least cost of a selection of at most m routes (INF: there is none)
CheapestCover(N, ps) == CoverFrom(N, ps, [S \in {{}} |-> [m \in 0..N |-> 0]], 1)[1..N]
=============================================================================
