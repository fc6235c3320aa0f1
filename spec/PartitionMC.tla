---------------------------- MODULE PartitionMC ----------------------------
(* The computations of Partition against their definitions, for every small *)
(* instance: all partitions of the customers are listed.                    *)
EXTENDS Partition
CONSTANTS NC, VALS, DEMS, CAPS, COSTS
VARIABLES I, ps
vars == <<I, ps>>
Edges == {p \in (0..NC) \X (0..NC) : p[1] < p[2]}
Mat(w) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE IF a < b THEN w[<<a-1, b-1>>] ELSE w[<<b-1, a-1>>]]]
Insts == {[n |-> NC, D |-> Mat(w), d |-> <<0>> \o d, C |-> c, L |-> 0] : w \in [Edges -> VALS], d \in [1..NC -> DEMS], c \in CAPS}
RECURSIVE Partitions(_)
Partitions(S) == IF S = {} THEN {{}}
  ELSE LET a == MinS(S) IN UNION {{ {P \cup {a}} \cup R : R \in Partitions(S \ (P \cup {a}))} : P \in SUBSET (S \ {a})}
Sets == (SUBSET (1..NC)) \ {{}}
None == [S \in Sets |-> 0]                      \* 0: not in the collection
Init == \/ I \in {x \in Insts : \A c \in 1..NC : x.C = 0 \/ x.d[c+1] <= x.C} /\ ps = None
        \/ I = (CHOOSE x \in Insts : TRUE) /\ ps \in [Sets -> COSTS]
Next == UNCHANGED vars
Coll == {<<S, ps[S]>> : S \in {X \in Sets : ps[X] > 0}}
PermCost(S) == MinS({RouteCost(I, q) : q \in {[k \in 1..Cardinality(S) |-> f[k]] : f \in {g \in [1..Cardinality(S) -> S] : Range(g) = S}}})
TourOK == ps = None => LET T == TourCosts(I) IN DOMAIN T = Sets /\ \A S \in Sets : T[S] = PermCost(S)
FewestOK == ps = None => FewestVehicles(I) = MinS({Cardinality(P) : P \in {Q \in Partitions(1..NC) : \A S \in Q : SetFits(I, S)}})
CostOf(P) == FoldSet(LAMBDA S, a: a + ps[S], 0, P)
CoverOK == ps # None => LET best == CheapestCover(NC, Coll) IN
  \A m \in 1..NC : best[m] = MinS({INF} \cup {CostOf(P) : P \in {Q \in Partitions(1..NC) : Cardinality(Q) <= m /\ \A S \in Q : ps[S] > 0}})
=============================================================================
