------------------------------ MODULE Routing ------------------------------
(* The system every solver plans for: vehicles leave the depot, serve       *)
(* customers one by one and return.  A plan is a behaviour of this machine; *)
(* the guards of Serve and Return are the three feasibility conditions, one *)
(* named clause each, so a rejected stop says what is wrong with the plan.  *)
EXTENDS CVRP

VARIABLES at,      \* current node
          served,  \* customers served so far
          load,    \* load of the current route
          len,     \* cost of the current route so far
          cost,    \* cost of everything so far
          trips    \* routes closed so far
rvars == <<at, served, load, len, cost, trips>>

RInit == at = 0 /\ served = {} /\ load = 0 /\ len = 0 /\ cost = 0 /\ trips = 0

\* why customer c cannot be served next ("" = it can)
ServeBlocked(I, c) ==
  IF c \notin Customers(I) THEN "unknown customer"
  ELSE IF c \in served THEN "customer served twice"
  ELSE IF I.C # 0 /\ load + Dem(I, c) > I.C THEN "capacity exceeded"
  ELSE ""
ReturnBlocked(I) ==
  IF I.L # 0 /\ len + Dist(I, at, 0) > I.L THEN "route cost exceeded" ELSE ""

ServeEffect(I, c) ==
  /\ at' = c
  /\ served' = served \cup {c}
  /\ load' = load + Dem(I, c)
  /\ len' = len + Dist(I, at, c)
  /\ cost' = cost + Dist(I, at, c)
  /\ UNCHANGED trips
ReturnEffect(I) ==
  /\ at' = 0
  /\ load' = 0 /\ len' = 0
  /\ cost' = cost + Dist(I, at, 0)
  /\ trips' = IF at = 0 THEN trips ELSE trips + 1
  /\ UNCHANGED served

Serve(I, c) == ServeBlocked(I, c) = "" /\ ServeEffect(I, c)
Return(I)   == ReturnBlocked(I) = "" /\ ReturnEffect(I)
Done(I)     == at = 0 /\ served = Customers(I)
=============================================================================
