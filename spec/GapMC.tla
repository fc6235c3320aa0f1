-------------------------------- MODULE GapMC ------------------------------
(* Customers are given one after the other to any vehicle they fit, on all  *)
(* small metrics with seeds at customers: no complete assignment is cheaper *)
(* than Optimum and some reach it (Reach); a plan read back from it costs   *)
(* at most as much (the routes may suit other seeds better); detours are    *)
(* never negative and a customer costs nothing with a seed at its place.    *)
EXTENDS Gap
CONSTANTS NC, W, DEM, CAPS, K0
VARIABLES I, S, a
vars == <<I, S, a>>
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Metric(J) == \A x, y, z \in Nodes(J) : Dist(J, x, y) <= Dist(J, x, z) + Dist(J, z, y)
Base == {J \in {[n |-> NC, D |-> [x \in 1..NC+1 |-> [y \in 1..NC+1 |-> IF x = y THEN 0 ELSE w[{x, y}]]],
                 d |-> [k \in 1..NC+1 |-> IF k = 1 THEN 0 ELSE d[k-1]], C |-> c, L |-> 0]
                : w \in [Edges -> W], d \in [1..NC -> DEM], c \in CAPS} : Metric(J)}
Seeds(J) == {[k \in 1..K0 |-> J.D[f[k]+1]] : f \in [1..K0 -> 1..NC]}
Load(w) == FoldLeftDomain(LAMBDA acc, i : acc + (IF a[i] = w THEN Dem(I, i) ELSE 0), 0, a)
Init == I \in Base /\ S \in Seeds(I) /\ a = <<>>
Next == /\ Len(a) < NC
        /\ \E k \in 1..K0 : (I.C = 0 \/ Load(k) + Dem(I, Len(a)+1) <= I.C) /\ a' = Append(a, k)
        /\ UNCHANGED <<I, S>>
Cost == FoldLeftDomain(LAMBDA acc, i : acc + Detour(I, S, i, a[i]), 0, a)
RoutesOf == SelectSeq([k \in 1..K0 |-> SelectSeq([i \in 1..NC |-> i], LAMBDA i : a[i] = k)], LAMBDA q : q # <<>>)
Full == Len(a) = NC
Lower == Full => /\ Cost >= Optimum(I, S)
                 /\ Spent(I, S, RoutesOf) <= Cost
                 /\ Spent(I, S, RoutesOf) >= Optimum(I, S)
Free == \A i \in 1..NC, k \in 1..K0 : /\ Detour(I, S, i, k) >= 0
                                      /\ (S[k] = I.D[i+1] => Detour(I, S, i, k) = 0)
\* from every state the rest can be given at what Cheapest says, by some next step
Reach == Len(a) < NC => LET w == [k \in 1..K0 |-> Load(k)] i == Len(a)+1 c == Cheapest(I, S, i, w) IN
         c < Huge => \E k \in 1..K0 : /\ I.C = 0 \/ w[k] + Dem(I, i) <= I.C
                                      /\ c = Detour(I, S, i, k) + Cheapest(I, S, i+1, [w EXCEPT ![k] = @ + Dem(I, i)])
=============================================================================
