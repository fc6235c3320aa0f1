----------------------------- MODULE SuppressMC ----------------------------
(* Design model of the perturbed savings heuristic on all matrices with     *)
(* different distances between customers: the best plan is complete and     *)
(* feasible, never worse than any earlier best, at the first round the plan *)
(* of plain savings, every round adds a suppressed pair or changes nothing  *)
(* more, and the plan of each round satisfies the look-back of Savings.     *)
EXTENDS Suppress
CONSTANTS NC, DEP, VALS, CAPS, LP
VARIABLES I, mk
vars == <<I, mk, svars>>
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Metric(J) == \A a, b, c \in Nodes(J) : Dist(J, a, b) <= Dist(J, a, c) + Dist(J, c, b)
Inner == {e \in Edges : 1 \notin e}
Vals == {v \in [Inner -> VALS] : \A e, f \in Inner : v[e] = v[f] => e = f}
Insts == {[n |-> NC, D |-> [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE IF 1 \in {a, b} THEN w[Max2(a, b)] ELSE v[{a, b}]]],
           d |-> [k \in 1..NC+1 |-> IF k = 1 THEN 0 ELSE 1], C |-> c, L |-> 0]
          : v \in Vals, w \in [2..NC+1 -> DEP], c \in CAPS}
Init == I \in Insts /\ mk \in BOOLEAN /\ SInit
Next == Round(I, mk, LP) /\ UNCHANGED <<I, mk>>
Complete == \A R \in best : IsPermutationOf(AllStops(SetToSeq(R)), Customers(I)) /\ \A q \in R : RouteOK(I, q)
Growing == Cardinality(supp) <= round
Step == [][/\ supp \subseteq supp'
           /\ best # {} => \A A \in best, B \in best' : ~Better(mk, Worth(I, A), Worth(I, B))
           /\ \A R \in best' \ best : SavingsClause(I, SF(supp), mk, R) = "ok"]_vars
=============================================================================
