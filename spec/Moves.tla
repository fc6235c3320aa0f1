------------------------------- MODULE Moves -------------------------------
(* The neighbourhoods of the local search operators, declaratively: each    *)
(* move is written as the routes it leaves behind; its cost change and its  *)
(* feasibility follow from CVRP (nothing is computed from deltas).  Routes  *)
(* are open (without the depot).  N.xxx are sets of results.                *)
EXTENDS CVRP

Sub(r, a, b) == SubSeq(r, a, b)
Rev(r) == Reverse(r)
DropAt(r, i) == Sub(r, 1, i-1) \o Sub(r, i+1, Len(r))
PutAt(r, j, c) == Sub(r, 1, j) \o <<c>> \o Sub(r, j+1, Len(r))   \* j = 0..Len(r): after position j
SetAt(r, i, c) == [r EXCEPT ![i] = c]

\* ------------------------------------------------------------ one route
\* i, j: cut after position i / j of the closed route, 0 <= i < j <= Len(r)
TwoOpt(r) == {Sub(r, 1, c[1]) \o Rev(Sub(r, c[1]+1, c[2])) \o Sub(r, c[2]+1, Len(r)) :
               c \in {x \in (0..Len(r)) \X (0..Len(r)) : x[1] < x[2]}}
Relocate(r) == {PutAt(DropAt(r, c[1]), c[2], r[c[1]]) :
                 c \in {x \in (1..Len(r)) \X (0..(Len(r)-1)) : x[2] # x[1]-1}}
Exchange(r) == {[r EXCEPT ![c[1]] = r[c[2]], ![c[2]] = r[c[1]]] :
                 c \in {x \in (1..Len(r)) \X (1..Len(r)) : x[1] < x[2]}}
ThreeOpt(r) ==
  UNION { LET h == Sub(r, 1, c[1])
              s == Sub(r, c[1]+1, c[2])
              t == Sub(r, c[2]+1, c[3])
              e == Sub(r, c[3]+1, Len(r))
          IN { h \o s \o Rev(t) \o e, h \o Rev(s) \o t \o e, h \o Rev(t) \o Rev(s) \o e,
               h \o Rev(s) \o Rev(t) \o e, h \o t \o s \o e, h \o t \o Rev(s) \o e,
               h \o Rev(t) \o s \o e } :
          c \in {x \in (0..Len(r)) \X (0..Len(r)) \X (0..Len(r)) : x[1] < x[2] /\ x[2] < x[3]} }
Intra(op, r) == CASE op = "2opt" -> TwoOpt(r) [] op = "3opt" -> ThreeOpt(r)
                  [] op = "relocate" -> Relocate(r) [] op = "exchange" -> Exchange(r)

\* ------------------------------------------------------- several routes
TwoOptStar(p, q) ==
  UNION { LET ph == Sub(p, 1, c[1])  pt == Sub(p, c[1]+1, Len(p))
              qh == Sub(q, 1, c[2])  qt == Sub(q, c[2]+1, Len(q))
          IN { <<ph \o Rev(qh), Rev(pt) \o qt>>, <<ph \o qt, qh \o pt>> } :
          c \in (0..Len(p)) \X (0..Len(q)) }
OnePoint(p, q) == { <<DropAt(p, c[1]), PutAt(q, c[2], p[c[1]])>> :
                    c \in (1..Len(p)) \X (0..Len(q)) }
TwoPoint(p, q) == { <<SetAt(p, c[1], q[c[2]]), SetAt(q, c[2], p[c[1]])>> :
                    c \in (1..Len(p)) \X (1..Len(q)) }
Chain(p, q, s) == { <<DropAt(p, c[1]), SetAt(q, c[2], p[c[1]]), PutAt(s, c[3], q[c[2]])>> :
                    c \in (1..Len(p)) \X (1..Len(q)) \X (0..Len(s)) }
Inter(op, rs) == CASE op = "2optstar" -> TwoOptStar(rs[1], rs[2])
                   [] op = "1point"   -> OnePoint(rs[1], rs[2])
                   [] op = "2point"   -> TwoPoint(rs[1], rs[2])
                   [] op = "chain"    -> Chain(rs[1], rs[2], rs[3])
\* every result over a tuple of routes
Neighbours(op, rs) == IF op \in {"2opt", "3opt", "relocate", "exchange"}
                      THEN {<<x>> : x \in Intra(op, rs[1])} ELSE Inter(op, rs)

\* ----------------------- exchanging two or three edges anywhere in a plan
\* The plan is one tour over the depot; taking out three edges leaves a head, two
\* middle segments and a tail, and the fourteen ways to join the six ends differently
\* are the results; a middle part closed on itself must contain the depot.
HasDepot(s) == \E k \in DOMAIN s : s[k] = 0
LoopRoutes(s) == LET p == CHOOSE k \in DOMAIN s : s[k] = 0 IN Routes(Sub(s, p, Len(s)) \o Sub(s, 1, p))
ThreeExchanges(t, i, j, k) ==
  LET h == Sub(t, 1, i)  s == Sub(t, i+1, j)  u == Sub(t, j+1, k)  e == Sub(t, k+1, Len(t)) IN
  { Routes(h \o s \o Rev(u) \o e), Routes(h \o Rev(s) \o u \o e), Routes(h \o Rev(u) \o Rev(s) \o e),
    Routes(h \o Rev(s) \o Rev(u) \o e), Routes(h \o u \o s \o e), Routes(h \o u \o Rev(s) \o e),
    Routes(h \o Rev(u) \o s \o e) }
  \cup (IF HasDepot(s) THEN {Routes(h \o u \o e) \o LoopRoutes(s), Routes(h \o Rev(u) \o e) \o LoopRoutes(s)} ELSE {})
  \cup (IF HasDepot(u) THEN {Routes(h \o s \o e) \o LoopRoutes(u), Routes(h \o Rev(s) \o e) \o LoopRoutes(u)} ELSE {})
  \cup (IF HasDepot(s \o u) THEN {Routes(h \o e) \o LoopRoutes(s \o u), Routes(h \o e) \o LoopRoutes(s \o Rev(u))} ELSE {})
  \cup (IF HasDepot(s) /\ HasDepot(u) THEN {Routes(h \o e) \o LoopRoutes(s) \o LoopRoutes(u)} ELSE {})
PlanExchanges(rs) == LET t == TourOf(rs) IN
  UNION {ThreeExchanges(t, c[1], c[2], c[3]) :
         c \in {x \in (1..(Len(t)-1)) \X (1..(Len(t)-1)) \X (1..(Len(t)-1)) : x[1] < x[2] /\ x[2] < x[3]}}

\* ------------------------------------------------------------- evaluation
AllOK(I, rs) == \A k \in DOMAIN rs : RouteOK(I, rs[k])
\* cost changes of the feasible results; limits do not bind single-route moves of
\* a route that only gets cheaper, but are not given to the intra operators at all
Deltas(I, op, rs) == LET c == PlanCost(I, rs) IN
  {PlanCost(I, x) - c : x \in {y \in Neighbours(op, rs) :
        op \in {"2opt", "3opt", "relocate", "exchange"} \/ AllOK(I, y)}}
Customers_(rs) == FoldLeft(LAMBDA acc, r: acc \o r, <<>>, rs)
SameElems(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
    Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})

\* ------------------------------------------------------------- insertion
\* all ways to put customer c in r, and the cheapest feasible ones
Insertions(r, c) == {PutAt(r, j, c) : j \in 0..Len(r)}
FeasIns(I, r, c) == {x \in Insertions(r, c) : RouteOK(I, x)}
CheapestIns(I, r, c) == LET F == FeasIns(I, r, c) IN
    {x \in F : \A y \in F : RouteCost(I, x) <= RouteCost(I, y)}
\* inserting customers cs one by one, each at a cheapest feasible place of the
\* first route that can take it, succeeds however ties are broken
RECURSIVE MustPlace(_, _, _)
MustPlace(I, rs, cs) ==
  IF cs = <<>> THEN TRUE
  ELSE LET ks == {k \in DOMAIN rs : FeasIns(I, rs[k], cs[1]) # {}}
       IN ks # {} /\ LET k == CHOOSE k \in ks : \A j \in ks : k <= j
                     IN \A x \in CheapestIns(I, rs[k], cs[1]) :
                          MustPlace(I, [rs EXCEPT ![k] = x], Tail(cs))
Perms(s) == {[k \in DOMAIN s |-> s[f[k]]] : f \in Permutations(DOMAIN s)}
=============================================================================
