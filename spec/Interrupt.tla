------------------------------ MODULE Interrupt ------------------------------
(* Building a plan while an interrupt may arrive at any moment: the routes  *)
(* under construction always respect the limits, customers leave the        *)
(* unrouted set only for one route, and what an interrupt salvages is the   *)
(* routes built so far plus one route per unrouted customer - or nothing.   *)
EXTENDS CVRP
\* the plan salvaged from the routes and the unrouted customers
Salvage(rs, unrouted) == rs \o [k \in 1..Cardinality(unrouted) |-> <<SetToSortSeq(unrouted, <)[k]>>]
\* what an interrupted call may hand over: nothing, or a complete feasible plan
Acceptable(I, t) == t = <<>> \/ ( /\ t[1] = 0 /\ t[Len(t)] = 0 /\ Known(I, t) /\ Feasible(I, Routes(t)) )
=============================================================================
