----------------------------- MODULE Construct -----------------------------
(* Construction heuristics that grow routes customer by customer, as one    *)
(* machine over emerging routes ("slots", taking turns):                    *)
(*   ss   sequential savings: join the unrouted customer with the largest   *)
(*        saving to an end of the route                                     *)
(*   ins  cheapest insertion: insert the customer with the best criterion   *)
(*        at its best place, any position                                   *)
(*   nn   nearest neighbour: append the customer nearest to the last added  *)
(* cf = [alg, slots, seed, mk, lam, mu, q, endonly] configures it.  goal is *)
(* a guide: {} runs the machine freely; a set of routes (up to direction)   *)
(* prunes every step that cannot lead to exactly these routes (all rules    *)
(* but endonly are symmetric, so only one direction of a route is followed).*)
EXTENDS CVRP

VARIABLES slot,    \* emerging routes, <<>> = none
          last,    \* per slot the customer added last
          unr,     \* customers not on a route
          fin,     \* finished routes, canonical
          turn, ph \* whose turn; "in" before its move, "out" after it, "done"
cvars == <<slot, last, unr, fin, turn, ph>>

\* ---- guides
Contig(a, b) == \E k \in 0..Len(b)-Len(a) : \A x \in DOMAIN a : b[k+x] = a[x]
RECURSIVE SubOf(_, _, _, _)
SubOf(a, x, b, y) == IF x > Len(a) THEN TRUE ELSE IF y > Len(b) THEN FALSE
                     ELSE IF a[x] = b[y] THEN SubOf(a, x+1, b, y+1) ELSE SubOf(a, x, b, y+1)
Part(cf, a, b) == IF cf.alg = "ins" THEN SubOf(a, 1, b, 1) ELSE Contig(a, b)
CanBe(cf, goal, s) == goal = {} \/ s = <<>> \/ \E r \in goal : s[1] \in Range(r) /\ (Part(cf, s, r) \/ (cf.endonly /\ Part(cf, s, Reverse(r))))
CanEnd(goal, s) == goal = {} \/ CanonRoute(s) \in goal

\* ---- seeds
NearestDist(I, U, c) == IF U = {c} THEN 0 ELSE Min({Dist(I, c, x) : x \in U \ {c}})
SeedsOf(I, rule, U) ==
  IF rule = "closest" THEN {c \in U : \A x \in U : Dist(I, 0, c) <= Dist(I, 0, x)}
  ELSE IF rule = "farthest" THEN {c \in U : \A x \in U : Dist(I, 0, c) >= Dist(I, 0, x)}
  ELSE LET m == Min({NearestDist(I, U, c) : c \in U}) IN {c \in U : NearestDist(I, U, c) = m}

\* ---- sequential savings
SavOf(I, i, j) == Dist(I, 0, i) + Dist(I, 0, j) - Dist(I, i, j)
Extended(s, i, j) == (IF s[Len(s)] = i THEN {Append(s, j)} ELSE {}) \cup (IF s[1] = i THEN {<<j>> \o s} ELSE {})
SSCand(I, cf, s, U) ==       \* links to an end that fit and do not cost
  {p \in {s[1], s[Len(s)]} \X U :
     /\ cf.mk \/ SavOf(I, p[1], p[2]) >= 0
     /\ \E t \in Extended(s, p[1], p[2]) : RouteOK(I, t)}
SSBetter(I, a, b) == LET x == SavOf(I, a[1], a[2])  y == SavOf(I, b[1], b[2]) IN
   x > y \/ (x = y /\ Dist(I, a[1], a[2]) < Dist(I, b[1], b[2]))
SSMoves(I, cf, s, U) == LET C == SSCand(I, cf, s, U) IN
   UNION {{<<t, p[2]>> : t \in Extended(s, p[1], p[2])} : p \in {q \in C : \A x \in C : ~SSBetter(I, x, q)}}

\* ---- insertion
PutAt(s, k, u) == SubSeq(s, 1, k) \o <<u>> \o SubSeq(s, k+1, Len(s))
Before(s, k) == IF k = 0 THEN 0 ELSE s[k]
After(s, k) == IF k = Len(s) THEN 0 ELSE s[k+1]
Extra(I, s, k, u) == Dist(I, Before(s, k), u) + Dist(I, u, After(s, k)) - Dist(I, Before(s, k), After(s, k))
InsCand(I, cf, s, U) ==
  {p \in (0..Len(s)) \X U :
     /\ cf.mk \/ Extra(I, s, p[1], p[2]) <= 2*Dist(I, 0, p[2])
     /\ RouteOK(I, PutAt(s, p[1], p[2]))}
InsKey(I, cf, s, p) ==
  LET m == cf.q*(Dist(I, Before(s, p[1]), p[2]) + Dist(I, p[2], After(s, p[1]))) - cf.mu*Dist(I, Before(s, p[1]), After(s, p[1])) IN
    <<m - cf.lam*Dist(I, 0, p[2]), m>>
Less2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
InsMoves(I, cf, s, U) == LET C == InsCand(I, cf, s, U) IN
  {<<PutAt(s, p[1], p[2]), p[2]>> : p \in {q \in C : \A x \in C : ~Less2(InsKey(I, cf, s, x), InsKey(I, cf, s, q))}}

\* ---- nearest neighbour
NNMoves(I, cf, s, l, U) ==       \* what would be appended next, before the limits are looked at
  LET near == {u \in U : \A x \in U : Dist(I, l, u) <= Dist(I, l, x)} IN
   UNION {LET e == Append(s, u)  b == <<u>> \o s IN
      IF cf.endonly \/ RouteCost(I, e) < RouteCost(I, b) THEN {<<e, u>>}
      ELSE IF RouteCost(I, b) < RouteCost(I, e) THEN {<<b, u>>} ELSE {<<e, u>>, <<b, u>>} : u \in near}

\* ---- the machine
CInit(I, cf, goal) ==
  /\ slot = [k \in 1..cf.slots |-> <<>>] /\ last = [k \in 1..cf.slots |-> 0]
  /\ unr = Customers(I) /\ fin = {} /\ turn = 1
  /\ ph = IF cf.alg = "ins" THEN "seed" ELSE "in"
NextTurn(cf) == IF turn = cf.slots THEN 1 ELSE turn+1
\* put a new seed into slot k, its previous route (if any) being finished
Reseed(I, cf, goal, k) ==
  \E c \in SeedsOf(I, cf.seed, unr) :
    /\ CanBe(cf, goal, <<c>>)
    /\ slot[k] = <<>> \/ CanEnd(goal, slot[k])
    /\ fin' = IF slot[k] = <<>> THEN fin ELSE fin \cup {CanonRoute(slot[k])}
    /\ slot' = [slot EXCEPT ![k] = <<c>>] /\ last' = [last EXCEPT ![k] = IF cf.alg = "nn" THEN c ELSE 0]
    /\ unr' = unr \ {c}
Grow(cf, goal, k, m) ==
  /\ CanBe(cf, goal, m[1])
  /\ slot' = [slot EXCEPT ![k] = m[1]] /\ last' = [last EXCEPT ![k] = IF cf.alg = "nn" THEN m[2] ELSE 0]
  /\ unr' = unr \ {m[2]} /\ UNCHANGED fin

\* insertion opens all its slots first
SeedAll(I, cf, goal) == /\ ph = "seed" /\ unr # {} /\ Reseed(I, cf, goal, turn)
                        /\ turn' = NextTurn(cf) /\ ph' = IF turn = cf.slots THEN "in" ELSE "seed"
InsTurn(I, cf, goal) ==
  /\ cf.alg = "ins" /\ ph = "in" /\ unr # {}
  /\ LET M == InsMoves(I, cf, slot[turn], unr) IN
      IF M = {} THEN Reseed(I, cf, goal, turn) /\ turn' = NextTurn(cf) /\ UNCHANGED ph
      ELSE \E m \in M : Grow(cf, goal, turn, m) /\ ph' = "out" /\ UNCHANGED turn
\* a route that just became full may be replaced now or when its next turn comes
InsAfter(I, cf, goal) ==
  /\ cf.alg = "ins" /\ ph = "out" /\ turn' = NextTurn(cf) /\ ph' = "in"
  /\ \/ UNCHANGED <<slot, last, unr, fin>>
     \/ unr # {} /\ InsMoves(I, cf, slot[turn], unr) = {} /\ Reseed(I, cf, goal, turn)
SSTurn(I, cf, goal) ==
  /\ cf.alg = "ss" /\ ph = "in" /\ unr # {}
  /\ LET M == IF slot[1] = <<>> THEN {} ELSE SSMoves(I, cf, slot[1], unr) IN
      IF M = {} THEN Reseed(I, cf, goal, 1) ELSE \E m \in M : Grow(cf, goal, 1, m)
  /\ UNCHANGED <<turn, ph>>
NNTurn(I, cf, goal) ==
  /\ cf.alg = "nn" /\ ph = "in" /\ unr # {}
  /\ IF slot[turn] = <<>> THEN Reseed(I, cf, goal, turn) /\ UNCHANGED turn
     ELSE \E m \in NNMoves(I, cf, slot[turn], last[turn], unr) :
        IF RouteOK(I, m[1]) THEN Grow(cf, goal, turn, m) /\ turn' = NextTurn(cf)
        ELSE Reseed(I, cf, goal, turn) /\ UNCHANGED turn
  /\ UNCHANGED ph
Stop(I, cf, goal) ==
  /\ ph \notin {"done"} /\ unr = {}
  /\ \A k \in 1..cf.slots : slot[k] = <<>> \/ CanEnd(goal, slot[k])
  /\ fin' = fin \cup {CanonRoute(slot[k]) : k \in {j \in 1..cf.slots : slot[j] # <<>>}}
  /\ ph' = "done" /\ UNCHANGED <<slot, last, unr, turn>>
CNext(I, cf, goal) == \/ SeedAll(I, cf, goal) \/ InsTurn(I, cf, goal) \/ InsAfter(I, cf, goal)
                      \/ SSTurn(I, cf, goal) \/ NNTurn(I, cf, goal) \/ Stop(I, cf, goal)
=============================================================================
