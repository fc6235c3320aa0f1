------------------------------ MODULE SweepMC ------------------------------
(* The sweep step by step ends with the one plan whose routes are runs of   *)
(* consecutive customers, fit the limits at every stop and could not have   *)
(* taken the next customer.                                                 *)
EXTENDS Sweep
CONSTANTS NC, VALS, CAPS, LIMS
VARIABLES D, lim, k, open, rs
vars == <<D, lim, k, open, rs>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> [x \in 1..NC+1 |-> (x*x) % 4], C |-> lim[1], L |-> lim[2]]
q == [x \in 1..NC |-> x]
Cuts == {S \cup {NC} : S \in SUBSET (1..NC-1)}
RunsOf(S) == FoldLeft(LAMBDA acc, x: IF x \in S THEN [acc EXCEPT !.rs = Append(@, Append(acc.cur, x)), !.cur = <<>>]
                                     ELSE [acc EXCEPT !.cur = Append(@, x)], [rs |-> <<>>, cur |-> <<>>], q).rs
Maximal(p) == \A a \in DOMAIN p :
   /\ \A b \in 2..Len(p[a]) : RouteOK(I, SubSeq(p[a], 1, b))
   /\ p[a][Len(p[a])] # NC => ~RouteOK(I, Append(p[a], p[a][Len(p[a])]+1))
Init == /\ D \in {Mat(f) : f \in [Ends -> VALS]} /\ lim \in CAPS \X LIMS /\ k = 1 /\ open = <<>> /\ rs = <<>>
        /\ \A c \in 1..NC : RouteOK(I, <<c>>)
Take  == k <= NC /\ (open = <<>> \/ RouteOK(I, Append(open, q[k]))) /\ open' = Append(open, q[k]) /\ k' = k+1 /\ UNCHANGED <<D, lim, rs>>
Close == k <= NC /\ open # <<>> /\ ~RouteOK(I, Append(open, q[k])) /\ rs' = Append(rs, open) /\ open' = <<>> /\ UNCHANGED <<D, lim, k>>
End   == k = NC+1 /\ open # <<>> /\ rs' = Append(rs, open) /\ open' = <<>> /\ UNCHANGED <<D, lim, k>>
Next == Take \/ Close \/ End
Ended == k = NC+1 /\ open = <<>>
IsRun == Ended => rs = SweepRoutes(I, q, 1, 1) /\ Feasible(I, rs)
Unique == Ended => \A S \in Cuts : Maximal(RunsOf(S)) <=> RunsOf(S) = rs
\* reading backwards from the other end is the same process on the reversed order
Mirror == \A s \in 1..NC : Reading(q, s, -1) = Reverse(Reading(q, (s % NC) + 1, 1))
=============================================================================
