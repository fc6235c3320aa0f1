-------------------------------- MODULE Idle -------------------------------
(* Limits too large to matter.  A capacity of at least the whole demand and *)
(* a route cost limit no route can reach leave every route as feasible as   *)
(* no limit at all, so a method that asks its limits only whether a route   *)
(* fits cannot tell them apart from absent ones.                            *)
EXTENDS CVRP
Total(I) == LoadOf(I, [k \in 1..I.n |-> k])
Top(I) == Max({Dist(I, a, b) : a, b \in Nodes(I)})
IdleC(I, c) == c = 0 \/ c >= Max2(1, Total(I))
IdleL(I, l) == l = 0 \/ l >= Max2(1, (I.n+1)*Top(I))
With(I, c, l) == [n |-> I.n, D |-> I.D, d |-> I.d, C |-> c, L |-> l]
\* two pairs of limits that differ only where both are idle
SameLimits(I, x, y) == /\ x.C = y.C \/ (IdleC(I, x.C) /\ IdleC(I, y.C))
                       /\ x.L = y.L \/ (IdleL(I, x.L) /\ IdleL(I, y.L))
=============================================================================
