------------------------------- MODULE UnitsMC ------------------------------
(* Two copies of a method side by side, on the same instance in two systems *)
(* of units.  Steps: join two routes, move a customer, reverse a piece,     *)
(* swap two customers; a method takes the step offered if the routes fit    *)
(* and (when it is improving) the plan gets cheaper, or picks one of the    *)
(* cheapest, or one that frees most capacity.  Their plans never part, and  *)
(* the sets of steps they would call best are always the same.              *)
EXTENDS Units
CONSTANTS NC, W, DEM, CAPS, LENS, FD, FQ
VARIABLES I, J, p, q
vars == <<I, J, p, q>>
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Base == {[n |-> NC, D |-> [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE w[{a, b}]]], d |-> d, C |-> c, L |-> l]
         : w \in [Edges -> W], d \in {f \in [1..NC+1 -> DEM \cup {0}] : f[1] = 0 /\ \A k \in 2..NC+1 : f[k] \in DEM /\ (k > 2 => f[k] >= f[k-1])},
           c \in CAPS, l \in LENS}
Start == {<<k>> : k \in 1..NC}
Init == /\ I \in Base /\ J \in {Scaled(I, x, y) : x \in FD, y \in FQ}
        /\ p = Start /\ q = Start
Swap(r, a, b) == [k \in DOMAIN r |-> IF r[k] = a THEN b ELSE IF r[k] = b THEN a ELSE r[k]]
Without(r, a) == SelectSeq(r, LAMBDA c : c # a)
Put(r, k, a) == SubSeq(r, 1, k) \o <<a>> \o SubSeq(r, k+1, Len(r))
Clean(R) == R \ {<<>>}
Joins(R) == {(R \ {r, s}) \cup {r \o s} : <<r, s>> \in {t \in R \X R : t[1] # t[2]}}
Moves(R) == UNION {{Clean((R \ {r, s}) \cup {Without(r, a), Put(s, k, a)}) : a \in Range(r), k \in 0..Len(s)} : <<r, s>> \in {t \in R \X R : t[1] # t[2]}}
Turns(R) == UNION {{(R \ {r}) \cup {SubSeq(r, 1, i-1) \o Reverse(SubSeq(r, i, j)) \o SubSeq(r, j+1, Len(r))} : <<i, j>> \in {t \in (1..Len(r)) \X (1..Len(r)) : t[1] <= t[2]}} : r \in R}
Swaps(R) == {{Swap(r, a, b) : r \in R} : a, b \in 1..NC}
Offers(R) == Joins(R) \cup Moves(R) \cup Turns(R) \cup Swaps(R)
Fits(X, R) == \A r \in R : RouteOK(X, r)
Cost(X, R) == PlanCost(X, SetToSeq(R))
Cheaper(X, R, T) == Fits(X, T) /\ Cost(X, T) < Cost(X, R)
Take(X, R, T, imp) == IF Fits(X, T) /\ (imp => Cost(X, T) < Cost(X, R)) THEN T ELSE R
Best(X, R) == LET F == {T \in Offers(R) : Fits(X, T)} IN {T \in F : \A U \in F : Cost(X, T) <= Cost(X, U)}
Slack(X, R) == IF X.C = 0 THEN 0 ELSE Max({X.C - LoadOf(X, r) : r \in R})
Roomiest(X, R) == LET F == {T \in Offers(R) : Fits(X, T)} IN {T \in F : \A U \in F : Slack(X, T) >= Slack(X, U)}
Next == \E T \in Offers(p), imp \in BOOLEAN :
          p' = Take(I, p, T, imp) /\ q' = Take(J, q, T, imp) /\ UNCHANGED <<I, J>>
Together == p = q
SamePicks == Best(I, p) = Best(J, q) /\ Roomiest(I, p) = Roomiest(J, q)
Plans == IsPermutationOf(AllStops(SetToSeq(p)), Customers(I))
=============================================================================
