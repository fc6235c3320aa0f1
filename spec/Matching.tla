------------------------------ MODULE Matching -----------------------------
(* The matching based savings heuristic (Desrochers & Verhoog).  State: the *)
(* customers of each route, at first one per customer.  A step finds a      *)
(* maximum weight matching of the routes, all in pairs but at most one,     *)
(* where a pair weighs what serving the two by one shortest tour saves (or  *)
(* W when a limit forbids that), and joins the pair of that matching that   *)
(* weighs most.  It ends when that pair is forbidden or, unless vehicles    *)
(* are minimised, would make the plan dearer.                               *)
EXTENDS Partition
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Allowed(I, T, S) == SetFits(I, S) /\ (I.L = 0 \/ T[S] <= I.L)
\* weight of joining routes A and B; T: costs of shortest tours, W: weight of a forbidden pair
Weight(I, T, W, A, B) == IF Allowed(I, T, A \cup B) THEN T[A] + T[B] - T[A \cup B] ELSE W
RECURSIVE Perfect(_)
Perfect(P) == IF P = {} THEN {{}} ELSE LET a == CHOOSE x \in P : TRUE IN
  UNION {{ {{a, b}} \cup m : m \in Perfect(P \ {a, b})} : b \in P \ {a}}
Matchings(P) == IF Cardinality(P) % 2 = 0 THEN Perfect(P) ELSE UNION {Perfect(P \ {a}) : a \in P}
PairsOf(P) == {p \in kSubset(2, P) : TRUE}
Weights(I, T, W, P) == TLCEval([p \in PairsOf(P) |-> LET a == CHOOSE x \in p : TRUE  b == CHOOSE x \in p : x # a IN Weight(I, T, W, a, b)])
Total(w, m) == FoldSet(LAMBDA p, a: a + w[p], 0, m)
Abs(x) == IF x < 0 THEN -x ELSE x
\* maximum weight matchings, to the solver's relative accuracy 1/ACC
Best(w, P, ACC) == LET Ms == Matchings(P)
                       t == TLCEval([m \in Ms |-> Total(w, m)])
                       best == MaxS(Range(t)) IN {m \in Ms : best - t[m] <= Abs(best) \div ACC}
\* pairs the step may join, given the weights; none: it may end instead
Heaviest(w, m) == MaxS({w[p] : p \in m})
Stops(w, W, mk, m) == LET h == Heaviest(w, m) IN h = W \/ (~mk /\ h < 0)
Joins(w, W, mk, Ms) == UNION {{p \in m : w[p] = Heaviest(w, m)} : m \in {x \in Ms : ~Stops(w, W, mk, x)}}
MayEnd(w, W, mk, P, Ms) == Cardinality(P) = 1 \/ (\A p \in PairsOf(P) : w[p] = W) \/ \E m \in Ms : Stops(w, W, mk, m)
JoinPair(P, p) == (P \ p) \cup {UNION p}
Singles(I) == {{c} : c \in Customers(I)}

\* a run of the machine ends with exactly the routes R (joins never split up again,
\* so only joins inside a route of R matter)
RECURSIVE Reaches(_, _, _, _, _, _, _)
Reaches(I, T, W, mk, ACC, P, R) ==
  IF Cardinality(P) = 1 THEN P = R
  ELSE LET w == Weights(I, T, W, P)
           Ms == Best(w, P, ACC) IN
    \/ P = R /\ MayEnd(w, W, mk, P, Ms)
    \/ P # R /\ ~(\A p \in DOMAIN w : w[p] = W)
       /\ \E p \in {q \in Joins(w, W, mk, Ms) : \E S \in R : UNION q \subseteq S} : Reaches(I, T, W, mk, ACC, JoinPair(P, p), R)
=============================================================================
