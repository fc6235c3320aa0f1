------------------------------- MODULE IdleMC ------------------------------
(* Two copies of a method side by side: the same improving or joining steps *)
(* in the same order, taken only if the changed routes fit; one copy works  *)
(* with limits, the other with limits equal up to idleness.  Their plans    *)
(* never part (Together).  Steps: join two routes, move a customer, reverse *)
(* a piece, swap two customers; a step may also be offered to any customers *)
(* in any order, so every rule that picks steps from the plan is included.  *)
EXTENDS Idle
CONSTANTS NC, W, DEM, CAPS, LENS
VARIABLES I, x, y, p, q
vars == <<I, x, y, p, q>>
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Base == {[n |-> NC, D |-> [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE w[{a, b}]]], d |-> d, C |-> 0, L |-> 0]
         : w \in [Edges -> W], d \in {f \in [1..NC+1 -> DEM \cup {0}] : f[1] = 0 /\ \A k \in 2..NC+1 : f[k] \in DEM /\ (k > 2 => f[k] >= f[k-1])}}
Limits == {[C |-> c, L |-> l] : c \in CAPS, l \in LENS}
Start == {<<k>> : k \in 1..NC}
Init == /\ I \in Base /\ x \in Limits /\ y \in Limits
        /\ SameLimits(I, x, y) /\ x # y /\ x.C <= y.C /\ (x.C = y.C => x.L <= y.L)
        /\ p = Start /\ q = Start
Swap(r, a, b) == [k \in DOMAIN r |-> IF r[k] = a THEN b ELSE IF r[k] = b THEN a ELSE r[k]]
Without(r, a) == SelectSeq(r, LAMBDA c : c # a)
Put(r, k, a) == SubSeq(r, 1, k) \o <<a>> \o SubSeq(r, k+1, Len(r))
Clean(R) == R \ {<<>>}
\* all ways to change the plan R
Joins(R) == {(R \ {r, s}) \cup {r \o s} : <<r, s>> \in {t \in R \X R : t[1] # t[2]}}
Moves(R) == UNION {{Clean((R \ {r, s}) \cup {Without(r, a), Put(s, k, a)}) : a \in Range(r), k \in 0..Len(s)} : <<r, s>> \in {t \in R \X R : t[1] # t[2]}}
Turns(R) == UNION {{(R \ {r}) \cup {SubSeq(r, 1, i-1) \o Reverse(SubSeq(r, i, j)) \o SubSeq(r, j+1, Len(r))} : <<i, j>> \in {t \in (1..Len(r)) \X (1..Len(r)) : t[1] <= t[2]}} : r \in R}
Swaps(R) == {{Swap(r, a, b) : r \in R} : a, b \in 1..NC}
Offers(R) == Joins(R) \cup Moves(R) \cup Turns(R) \cup Swaps(R)
Fits(l, R) == \A r \in R : RouteOK(With(I, l.C, l.L), r)
Take(l, R, T) == IF Fits(l, T) THEN T ELSE R
Next == \E T \in Offers(p) : p' = Take(x, p, T) /\ q' = Take(y, q, T) /\ UNCHANGED <<I, x, y>>
Together == p = q
Plans == IsPermutationOf(AllStops(SetToSeq(p)), Customers(I))
=============================================================================
