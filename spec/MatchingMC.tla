---------------------------- MODULE MatchingMC -----------------------------
(* Design model: the matching based savings heuristic on every small metric *)
(* instance, with and without minimising vehicles.                          *)
EXTENDS Matching
CONSTANTS NC, VALS, DEMS, CAPS, LIMS
VARIABLES I, T, mk, P, done        \* T: costs of the shortest tours
vars == <<I, T, mk, P, done>>
Edges == {p \in (0..NC) \X (0..NC) : p[1] < p[2]}
Mat(w) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE IF a < b THEN w[<<a-1, b-1>>] ELSE w[<<b-1, a-1>>]]]
Metric(x) == \A a, b, c \in 0..NC : Dist(x, a, b) <= Dist(x, a, c) + Dist(x, c, b)
Insts == {x \in {[n |-> NC, D |-> Mat(w), d |-> <<0>> \o d, C |-> c, L |-> l] : w \in [Edges -> VALS], d \in [1..NC -> DEMS], c \in CAPS, l \in LIMS} :
           Metric(x) /\ \A c \in 1..NC : RouteOK(x, <<c>>)}
Init == I \in Insts /\ T = TourCosts(I) /\ mk \in BOOLEAN /\ P = Singles(I) /\ done = FALSE
W == IF mk THEN -1000 ELSE 0
CostOf(Q) == FoldSet(LAMBDA S, a: a + T[S], 0, Q)
Step == /\ ~done /\ Cardinality(P) > 1 /\ UNCHANGED <<I, T, mk>>
        /\ LET w == Weights(I, T, W, P)  Ms == Best(w, P, 10000) IN
             IF (\A p \in DOMAIN w : w[p] = W) THEN done' = TRUE /\ UNCHANGED P
             ELSE \/ (\E m \in Ms : Stops(w, W, mk, m)) /\ done' = TRUE /\ UNCHANGED P
                  \/ \E p \in Joins(w, W, mk, Ms) : P' = JoinPair(P, p) /\ done' = FALSE
Next == Step
Ended == done \/ Cardinality(P) = 1
Routes_OK == UNION P = Customers(I) /\ \A S \in P : Allowed(I, T, S)
             /\ \A A, B \in P : A = B \/ A \cap B = {}
NotDearer == CostOf(P) <= CostOf(Singles(I))
\* nothing that pays is left when it ends; minimising vehicles, no two routes fit together
NothingLeft == Ended => \A A, B \in P : A = B \/ LET x == Weight(I, T, -1000, A, B) IN IF mk THEN x = -1000 ELSE x <= 0
Explained == Ended => Reaches(I, T, W, mk, 10000, Singles(I), P)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends_ == <>Ended
=============================================================================
