----------------------------- MODULE RoutingMC -----------------------------
(* The vehicle machine is exactly the declarative notion of a feasible      *)
(* plan: what it completes is feasible with the right cost and number of    *)
(* routes, and a blocked stop begins no feasible plan.                      *)
EXTENDS Routing
CONSTANTS NC, VALS, CAPS, LIMS
VARIABLES D, lim, stops
vars == <<rvars, D, lim, stops>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> [k \in 1..NC+1 |-> k-1], C |-> lim[1], L |-> lim[2]]
\* every tour without idle trips
Orders == {[k \in 1..NC |-> f[k]] : f \in Permutations(1..NC)}
Cut(o, S) == FoldLeftDomain(LAMBDA acc, k: acc \o <<o[k]>> \o (IF k \in S \/ k = NC THEN <<0>> ELSE <<>>), <<0>>, o)
Tours == {Cut(o, S) : o \in Orders, S \in SUBSET (1..NC-1)}
Good == {t \in Tours : Feasible(I, Routes(t))}
Begins(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Init == RInit /\ D \in {Mat(f) : f \in [Ends -> VALS]} /\ lim \in CAPS \X LIMS /\ stops = <<0>>
Next == /\ UNCHANGED <<D, lim>>
        /\ \/ \E c \in Customers(I) : Serve(I, c) /\ stops' = Append(stops, c)
           \/ at # 0 /\ Return(I) /\ stops' = Append(stops, 0)
Sound == /\ Done(I) => Feasible(I, Routes(stops)) /\ cost = PlanCost(I, Routes(stops)) /\ trips = Len(Routes(stops))
         /\ cost = PathCost(I, stops) /\ load = LoadOf(I, SubSeq(stops, Len(stops)-Cardinality({k \in 1..Len(stops) : 0 \notin Range(SubSeq(stops, k, Len(stops)))})+1, Len(stops)))
Exact == /\ \A c \in Customers(I) : ServeBlocked(I, c) # "" => ~\E t \in Good : Begins(Append(stops, c), t)
         /\ at # 0 /\ ReturnBlocked(I) # "" => ~\E t \in Good : Begins(Append(stops, 0), t)
Encodings == Done(I) => TourOf(Routes(stops)) = stops
=============================================================================
