------------------------------ MODULE ToursMC ------------------------------
(* Every reply of a program about every choice of nodes: turning the tour   *)
(* while reading it keeps the tour and its cost and starts at the depot.    *)
EXTENDS Tours
CONSTANTS NC, VALS
VARIABLES D, sel, reply
vars == <<tvars, D, sel, reply>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> [x \in 1..NC+1 |-> 0], C |-> 0, L |-> 0]
Orders(S) == {p \in [1..Cardinality(S) -> S] : Range(p) = S}
Init == /\ TInit /\ \E f \in [Ends -> VALS] : D = Mat(f)
        /\ \E S \in SUBSET (0..NC) : Cardinality(S) >= 3 /\ sel \in Orders(S)
        /\ reply \in Orders(1..Len(sel))
Next == Read(sel, reply) /\ UNCHANGED <<D, sel, reply>>
Done == line > Len(reply)
Orig == [k \in 1..Len(reply) |-> sel[reply[k]]]
Kept == Done => /\ SameTour(Open(Answer), Orig) /\ IsClosed(Answer)
                /\ TourCost(I, Answer) = TourCost(I, Orig \o <<Orig[1]>>)
                /\ (0 \in Range(sel) => Answer[1] = 0)
Bound == Done => TourCost(I, Answer) >= OptTour(I, sel)
=============================================================================
