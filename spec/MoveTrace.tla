----------------------------- MODULE MoveTrace -----------------------------
(* Conformance of the local search operators: each record is one call of a  *)
(* real operator (input routes, limits, strategy, bound, returned routes    *)
(* with their recorded cost and demand, returned change).                   *)
EXTENDS Moves, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v

\* ---- shapes: a returned route is closed, over known nodes, depot only at its ends
IsEmptyRoute(t) == t = <<>> \/ t = <<0>> \/ t = <<0, 0>>
IsClosed(I, t) == \/ IsEmptyRoute(t)
                  \/ /\ Len(t) >= 3 /\ t[1] = 0 /\ t[Len(t)] = 0
                     /\ \A k \in 2..(Len(t)-1) : t[k] \in Customers(I)
Open(t) == IF IsEmptyRoute(t) THEN <<>> ELSE SubSeq(t, 2, Len(t)-1)
Opens(ts) == [k \in DOMAIN ts |-> Open(ts[k])]

Bound(q) == IF q.hasb THEN q.bound ELSE 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
IntraOp(op) == op \in {"2opt", "3opt", "relocate", "exchange"}

Common(q, I) ==
  IF q.out = "exc" THEN "failed with an error"
  ELSE IF q.out = "malformed" THEN "result is not routes and a change"
  ELSE IF q.inmut THEN "the input routes were changed"
  ELSE IF q.out = "move" /\ q.op # "3optstar" /\ \E k \in DOMAIN q.new : ~IsClosed(I, q.new[k]) THEN "a returned route is not a depot-to-depot route"
  ELSE ""
Records(q, I, new, which) ==      \* recorded costs and demands of the returned routes in `which'
  IF \E k \in which : q.cost[k] # RouteCost(I, new[k]) THEN "recorded route cost is wrong"
  ELSE IF I.C # 0 /\ \E k \in which : q.dem[k] # RouteLoad(I, new[k]) THEN "recorded route demand is wrong"
  ELSE ""

MoveClause(q, I) ==
  LET D == Deltas(I, q.op, q.rs)
      best == MinOf(D)
      b == Bound(q) IN
  IF q.out = "none" THEN IF D # {} /\ best < b THEN "missed an improving move" ELSE "ok"
  ELSE LET new == Opens(q.new) IN
    IF Len(new) # Len(q.rs) THEN "wrong number of routes returned"
    ELSE IF ~SameElems(Customers_(new), Customers_(q.rs)) THEN "customers were lost, duplicated or exchanged for others"
    ELSE IF ~IntraOp(q.op) /\ \E k \in DOMAIN new : ~CapOK(I, new[k]) THEN "capacity exceeded"
    ELSE IF ~IntraOp(q.op) /\ \E k \in DOMAIN new : ~LenOK(I, new[k]) THEN "route cost exceeded"
    ELSE IF q.delta # PlanCost(I, new) - PlanCost(I, q.rs) THEN "returned change is not the cost change"
    ELSE IF q.delta >= b THEN "not better than required"
    ELSE IF q.strat = "BEST" /\ D # {} /\ best < q.delta THEN "a better move exists"
    ELSE IF ~IntraOp(q.op) /\ Records(q, I, new, DOMAIN new) # "" THEN Records(q, I, new, DOMAIN new)
    ELSE "ok"

\* the whole-plan 3-opt*: the result is a tour
TourClause(q, I) ==
  LET D == {PlanCost(I, x) - PlanCost(I, q.rs) : x \in {y \in PlanExchanges(q.rs) : AllOK(I, y)}}
      b == Bound(q) IN
  IF q.out = "none" THEN IF D # {} /\ MinOf(D) < Min2(b, 0) THEN "missed an improving exchange of edges" ELSE "ok"
  ELSE LET t == q.new[1] IN
    IF t = <<>> \/ t[1] # 0 \/ t[Len(t)] # 0 THEN "does not start and end at the depot"
    ELSE IF ~Known(I, t) THEN "unknown customer"
    ELSE LET new == Routes(t) IN
      IF ~SameElems(Customers_(new), Customers_(q.rs)) THEN "customers were lost, duplicated or exchanged for others"
      ELSE IF \E k \in DOMAIN new : ~CapOK(I, new[k]) THEN "capacity exceeded"
      ELSE IF \E k \in DOMAIN new : ~LenOK(I, new[k]) THEN "route cost exceeded"
      ELSE IF q.delta # PlanCost(I, new) - PlanCost(I, q.rs) THEN "returned change is not the cost change"
      ELSE IF q.delta >= b THEN "not better than required"
      ELSE IF q.strat = "BEST" /\ D # {} /\ MinOf(D) < Min2(q.delta, 0) THEN "a better exchange of edges exists"
      ELSE "ok"

\* rs[1] receives the customers cs
IsSubseqOf(r, x) == SelectSeq(x, LAMBDA c: c \in Range(r)) = r
InsertClause(q, I) ==
  IF q.out = "none" THEN
     IF Len(q.cs) # 1 THEN
        IF ~q.hasb /\ q.strat = "BEST" /\ MustPlace(I, q.rs, q.cs) THEN "failed although the customers fit" ELSE "ok"
     ELSE LET F == FeasIns(I, q.rs[1], q.cs[1])
              c0 == RouteCost(I, q.rs[1]) IN
          IF F = {} THEN "ok"
          ELSE IF ~q.hasb THEN "failed although a feasible position exists"
          ELSE IF q.strat = "BEST" /\ MinOf({RouteCost(I, x) : x \in F}) - c0 < q.bound THEN "failed although a position beats the bound"
          ELSE "ok"
  ELSE IF Len(q.new) # 2 \/ ~IsEmptyRoute(q.new[1]) THEN "the inserted customers are not reported as removed"
  ELSE LET x == Open(q.new[2])
           F == FeasIns(I, q.rs[1], q.cs[1]) IN
    IF ~SameElems(x, q.rs[1] \o q.cs) THEN "customers were lost, duplicated or exchanged for others"
    ELSE IF ~IsSubseqOf(q.rs[1], x) THEN "order of the customers already on the route changed"
    ELSE IF ~CapOK(I, x) THEN "capacity exceeded"
    ELSE IF ~LenOK(I, x) THEN "route cost exceeded"
    ELSE IF q.delta # RouteCost(I, x) - RouteCost(I, q.rs[1]) THEN "returned change is not the cost change"
    ELSE IF q.hasb /\ q.delta >= q.bound THEN "not better than required"
    ELSE IF Len(q.cs) = 1 /\ q.strat = "BEST" /\ \E y \in F : RouteCost(I, y) < RouteCost(I, x) THEN "not the cheapest feasible position"
    ELSE Records(q, I, <<x, x>>, {2})

\* rs are the receiving routes, cs the customers of the dissolved route
RedistributeClause(q, I) ==
  IF q.out = "none" THEN
     IF q.strat = "BEST" /\ ~q.hasb
        /\ \E o \in (IF q.level \in {1, 3} THEN Perms(q.cs) ELSE {q.cs}) :
           \E p \in (IF q.level \in {2, 3} THEN Perms(q.rs) ELSE {q.rs}) : MustPlace(I, p, o)
     THEN "failed although the customers fit" ELSE "ok"
  ELSE IF Len(q.new) # Len(q.rs) + 1 \/ ~IsEmptyRoute(q.new[1]) THEN "the dissolved route is not reported as empty"
  ELSE LET xs == Opens(Tail(q.new)) IN
    IF ~SameElems(Customers_(xs), Customers_(q.rs) \o q.cs) THEN "customers were lost, duplicated or exchanged for others"
    ELSE IF ~\E f \in Permutations(DOMAIN xs) : \A k \in DOMAIN xs : IsSubseqOf(q.rs[k], xs[f[k]])
         THEN "order of the customers already on the routes changed"
    ELSE IF q.level \in {0, 1} /\ \E k \in DOMAIN xs : ~IsSubseqOf(q.rs[k], xs[k]) THEN "receiving routes are not returned in their order"
    ELSE IF \E k \in DOMAIN xs : ~CapOK(I, xs[k]) THEN "capacity exceeded"
    ELSE IF \E k \in DOMAIN xs : ~LenOK(I, xs[k]) THEN "route cost exceeded"
    ELSE IF q.delta # PlanCost(I, xs) - PlanCost(I, q.rs) THEN "returned change is not the cost change"
    ELSE IF q.hasb /\ q.delta >= q.bound THEN "not better than required"
    ELSE Records(q, I, <<<<>>>> \o xs, 2..Len(q.new))

Clause(q) == LET I == Insts[q.i]
                 c == Common(q, I) IN
  IF c # "" THEN c
  ELSE IF q.op = "3optstar" THEN TourClause(q, I)
  ELSE IF q.op = "insert" THEN LET d == InsertClause(q, I) IN IF d = "" THEN "ok" ELSE d
  ELSE IF q.op = "redistribute" THEN LET d == RedistributeClause(q, I) IN IF d = "" THEN "ok" ELSE d
  ELSE MoveClause(q, I)

Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = ""
        /\ LET c == Clause(Trace[tid]) IN
             /\ v' = c
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
        /\ UNCHANGED tid
=============================================================================
