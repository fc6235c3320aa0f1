------------------------------ MODULE TwoPhase -----------------------------
(* The two-phase heuristic of Christofides, Mingozzi and Toth as a machine  *)
(* in its deterministic form.  Phase one: a seed opens a route, all the     *)
(* unrouted are considered by D(0,i) + lambda D(i,seed), nearest first, and *)
(* join while the limits allow.  Phase two: the same seeds open routes side  *)
(* by side; in each turn every unrouted customer is associated with one of  *)
(* the routes whose turn has not come (its best, or nth best in a later     *)
(* pass), one route is chosen, and its customers join by decreasing regret. *)
(* Parameters c: [seed, lam, mu, q, most, rep]: lambda = lam/q, mu = mu/q,  *)
(* rep 0: one pass only, else the largest n of the nth best association.    *)
(* Ties are choices.                                                        *)
EXTENDS CVRP
VARIABLES ph, seeds, rts, cand, score, unr, queue, at, nth, ins, first, p1
wvars == <<ph, seeds, rts, cand, score, unr, queue, at, nth, ins, first, p1>>

NoLoad(I, S, x) == I.C = 0 \/ FoldSet(LAMBDA y, a: a + Dem(I, y), 0, S) + Dem(I, x) <= I.C
Mins(S, f(_)) == {x \in S : \A y \in S : f(x) <= f(y)}
Maxs(S, f(_)) == {x \in S : \A y \in S : f(x) >= f(y)}
SeedChoices(I, c, S) ==
  CASE c.seed = "farthest" -> Maxs(S, LAMBDA x: Dist(I, 0, x))
    [] c.seed = "closest"  -> Mins(S, LAMBDA x: Dist(I, 0, x))
    [] c.seed = "biggest"  -> Maxs(S, LAMBDA x: Dem(I, x))
    [] OTHER               -> Mins(S, LAMBDA x: x)
Near(I, c, i, s) == c.q * Dist(I, 0, i) + c.lam * Dist(I, i, s)
Eps(I, c, s, u)  == c.q * Dist(I, 0, u) + c.mu * Dist(I, u, s) - c.q * Dist(I, 0, s)
WInit(I) == /\ ph = "open" /\ seeds = <<>> /\ rts = <<>> /\ cand = {} /\ score = <<>>
            /\ unr = Customers(I) /\ queue = <<>> /\ at = 0 /\ nth = 1 /\ ins = FALSE /\ first = TRUE /\ p1 = {}
\* ---- phase one
OpenRoute(I, c) ==
  /\ ph = "open" /\ unr # {}
  /\ \E s \in SeedChoices(I, c, unr) :
       /\ seeds' = Append(seeds, s) /\ rts' = Append(rts, {s}) /\ unr' = unr \ {s}
       /\ cand' = unr \ {s} /\ score' = [x \in unr \ {s} |-> -Near(I, c, x, s)]
  /\ at' = Len(rts)+1 /\ ph' = "fill1" /\ UNCHANGED <<queue, nth, ins, first, p1>>
\* the shortest tour of a small set of customers
SetCost(I, S) ==
  IF S = {} THEN 0
  ELSE LET orders == {q \in [1..Cardinality(S) -> S] : Range(q) = S} IN Min({RouteCost(I, q) : q \in orders})
\* within the route cost limit: a tour of up to three is found for certain, a longer one perhaps
MustL(I, S) == I.L = 0 \/ (Cardinality(S) <= 3 /\ SetCost(I, S) <= I.L)
MayL(I, S) == I.L = 0 \/ Cardinality(S) > 5 \/ SetCost(I, S) <= I.L
\* the candidate with the highest score joins route at if the limits allow
Consider(I, ok(_, _)) ==
  \E x \in Maxs(cand, LAMBDA y: score[y]) :
    LET S == rts[at] \cup {x} IN
    /\ cand' = cand \ {x}
    /\ \E join \in (IF ~NoLoad(I, rts[at], x) THEN {FALSE} ELSE IF MustL(I, S) THEN {TRUE} ELSE IF MayL(I, S) THEN BOOLEAN ELSE {FALSE}) :
         IF join
         THEN ok(at, x) /\ rts' = [rts EXCEPT ![at] = S] /\ unr' = unr \ {x} /\ ins' = TRUE
         ELSE UNCHANGED <<rts, unr, ins>>
Fill1(I) == /\ ph = "fill1" /\ cand # {} /\ Consider(I, LAMBDA k, x: TRUE)
            /\ UNCHANGED <<ph, seeds, score, queue, at, nth, first, p1>>
Full1 == ph = "fill1" /\ cand = {} /\ ph' = "open" /\ score' = <<>> /\ UNCHANGED <<seeds, rts, cand, unr, queue, at, nth, ins, first, p1>>
ToTwo(I) == /\ ph = "open" /\ unr = {} /\ ph' = "turn" /\ p1' = Range(rts)
            /\ rts' = [k \in DOMAIN seeds |-> {seeds[k]}] /\ unr' = Customers(I) \ Range(seeds)
            /\ queue' = <<>> /\ at' = 0 /\ nth' = 1 /\ ins' = FALSE /\ first' = TRUE /\ UNCHANGED <<seeds, cand, score>>
\* ---- phase two
Pass(c) == /\ ph = "turn" /\ unr # {} /\ queue = <<>>
           /\ LET m == IF first \/ ins THEN nth ELSE nth+1 IN
              IF ~first /\ (c.rep = 0 \/ m > c.rep) THEN ph' = "failed" /\ UNCHANGED <<queue, nth, ins, first>>
              ELSE ph' = ph /\ nth' = m /\ queue' = [k \in DOMAIN seeds |-> k] /\ ins' = FALSE /\ first' = FALSE
           /\ UNCHANGED <<seeds, rts, cand, score, unr, at, p1>>
\* the routes of the queue that can be the m-th best of customer u
NthBest(I, c, u, m) ==
  LET Q == Range(queue)  e == [k \in Q |-> Eps(I, c, seeds[k], u)] IN
  {k \in Q : /\ Cardinality({y \in Q : e[y] < e[k]}) < m
             /\ Cardinality({y \in Q : e[y] <= e[k]}) >= m}
RECURSIVE Assocs(_, _, _, _)
\* all ways to associate the customers S with routes: sets of <<customer, route>>
Assocs(I, c, S, m) ==
  IF S = {} THEN {{}}
  ELSE LET u == CHOOSE x \in S : TRUE  R == Assocs(I, c, S \ {u}, m) IN
       {{<<u, k>>} \cup a : k \in NthBest(I, c, u, m), a \in R}
Turn(I, c) ==
  /\ ph = "turn" /\ unr # {} /\ queue # <<>>
  /\ IF nth > 1 /\ Len(queue) > 1 /\ Len(queue) < nth
     THEN queue' = <<>> /\ UNCHANGED <<ph, cand, score, at>>
     ELSE \E a \in Assocs(I, c, unr, IF Len(queue) = 1 THEN 1 ELSE nth) :
          LET N(k) == Cardinality({p \in a : p[2] = k}) IN
          \E k \in (IF c.most THEN Maxs(Range(queue), N) ELSE {queue[1]}) :
            LET rest == SelectSeq(queue, LAMBDA y: y # k)
                mine == {p[1] : p \in {z \in a : z[2] = k}}
                other(u) == IF rest = <<>> THEN 0 ELSE Min({Eps(I, c, seeds[y], u) : y \in Range(rest)})
            IN /\ queue' = rest /\ at' = k /\ cand' = mine /\ ph' = "fill2"
               /\ score' = [u \in mine |-> other(u) - Eps(I, c, seeds[k], u)]
  /\ UNCHANGED <<seeds, rts, unr, nth, ins, first, p1>>
Fill2(I, ok(_, _)) == /\ ph = "fill2" /\ cand # {} /\ Consider(I, ok)
                      /\ UNCHANGED <<ph, seeds, score, queue, at, nth, first, p1>>
Full2 == ph = "fill2" /\ cand = {} /\ ph' = "turn" /\ score' = <<>> /\ UNCHANGED <<seeds, rts, cand, unr, queue, at, nth, ins, first, p1>>
Built == ph = "turn" /\ unr = {} /\ ph' = "built" /\ UNCHANGED <<seeds, rts, cand, score, unr, queue, at, nth, ins, first, p1>>
\* ok(k, x): may customer x join route k of phase two (TRUE: any run)
WNext(I, c, ok(_, _)) == OpenRoute(I, c) \/ Fill1(I) \/ Full1 \/ ToTwo(I) \/ Pass(c) \/ Turn(I, c) \/ Fill2(I, ok) \/ Full2 \/ Built

GroupsCost(I, P) == FoldSet(LAMBDA S, a: a + SetCost(I, S), 0, P)
Small(P) == \A S \in P : Cardinality(S) <= 3
=============================================================================
