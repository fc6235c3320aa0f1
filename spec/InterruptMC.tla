----------------------------- MODULE InterruptMC -----------------------------
(* The design: any algorithm that only ever moves between feasible partial  *)
(* plans (place, move, merge) may be interrupted between its steps.         *)
EXTENDS Interrupt
CONSTANTS NC, VALS, CAPS, LIMS
VARIABLES D, lim, routes, unrouted, pc, given
vars == <<D, lim, routes, unrouted, pc, given>>
Cust == 1..NC
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
Pairs == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
I == [n |-> NC, D |-> D, d |-> [k \in 1..NC+1 |-> k-1], C |-> lim[1], L |-> lim[2]]
Init == /\ D \in {Mat(f) : f \in [Pairs -> VALS]}
        /\ lim \in CAPS \X LIMS
        /\ \A c \in Cust : RouteOK(I, <<c>>)        \* the instance is solvable
        /\ routes = <<>> /\ unrouted = Cust /\ pc = "build" /\ given = <<>>
Place == /\ pc = "build" /\ \E c \in unrouted :
            /\ unrouted' = unrouted \ {c}
            /\ \/ routes' = Append(routes, <<c>>)
               \/ \E k \in DOMAIN routes : \E p \in 0..Len(routes[k]) :
                    LET nr == SubSeq(routes[k], 1, p) \o <<c>> \o SubSeq(routes[k], p+1, Len(routes[k])) IN
                    RouteOK(I, nr) /\ routes' = [routes EXCEPT ![k] = nr]
         /\ UNCHANGED <<D, lim, pc, given>>
Merge == /\ pc = "build" /\ \E a, b \in DOMAIN routes : a < b /\
            LET nr == routes[a] \o routes[b] IN
            /\ RouteOK(I, nr)
            /\ routes' = SelectSeq([routes EXCEPT ![a] = nr, ![b] = <<>>], LAMBDA r : r # <<>>)
         /\ UNCHANGED <<D, lim, unrouted, pc, given>>
Release == /\ pc = "build" /\ \E k \in DOMAIN routes : Len(routes[k]) = 1   \* give a customer back
              /\ unrouted' = unrouted \cup Range(routes[k])
              /\ routes' = SelectSeq([routes EXCEPT ![k] = <<>>], LAMBDA r : r # <<>>)
           /\ UNCHANGED <<D, lim, pc, given>>
Interrupted == /\ pc = "build" /\ pc' = "interrupted" /\ UNCHANGED <<D, lim, routes, unrouted>>
               /\ given' \in {<<>>, TourOf(Salvage(routes, unrouted))}
Finish == pc = "build" /\ unrouted = {} /\ pc' = "done" /\ given' = TourOf(routes) /\ UNCHANGED <<D, lim, routes, unrouted>>
Next == Place \/ Merge \/ Release \/ Interrupted \/ Finish
Partial == /\ AllStops(routes) = <<>> \/ Cardinality(Range(AllStops(routes))) = Len(AllStops(routes))
           /\ Range(AllStops(routes)) \cap unrouted = {} /\ Range(AllStops(routes)) \cup unrouted = Cust
           /\ \A k \in DOMAIN routes : RouteOK(I, routes[k])
Given == pc \in {"interrupted", "done"} => Acceptable(I, given)
Complete == pc = "done" => given # <<>>
=============================================================================
