------------------------------ MODULE Savings ------------------------------
(* The parallel savings heuristic as a machine.  State: the plan (a set of  *)
(* routes up to direction, at first one per customer) and the pairs of      *)
(* customers not looked at yet.  A step looks at a pair with the largest    *)
(* key (saving, then shorter link): it joins the two routes the pair ends   *)
(* when the limits allow, drops the pair otherwise, and stops everything    *)
(* when cost is minimised and the join would make the plan dearer.          *)
EXTENDS CVRP

Pairs(I) == {p \in Customers(I) \X Customers(I) : p[1] < p[2]}
Abs(x) == IF x < 0 THEN -x ELSE x
CW(I, i, j) == Dist(I, 0, i) + Dist(I, 0, j) - Dist(I, i, j)
SumD(I) == FoldLeft(LAMBDA a, row: FoldLeft(LAMBDA b, x: b + x, a, row), 0, I.D)

\* saving of a pair under savings function f = [name, q, g, f, supp, loose];
\* rational factors are integers over q, the average is scaled by N*N
Saving(I, f, i, j) ==
  LET skew == Abs(Dist(I, 0, i) - Dist(I, 0, j)) IN
  CASE f.name = "cw" -> CW(I, i, j)
    [] f.name = "pi" -> Dist(I, 0, i) + Dist(I, 0, j) - 2*Dist(I, i, j)
    [] f.name = "lambda" -> CW(I, i, j) * (SumD(I) + (I.n+1)*(I.n+1)*(skew - Dist(I, i, j)))
    [] f.name = "gf" -> f.q*(Dist(I, 0, i) + Dist(I, 0, j)) - f.g*Dist(I, i, j) + f.f*skew
    [] f.name = "supp" -> IF \E s \in Range(f.supp) : s[1] = i /\ s[2] = j THEN 0 ELSE Max2(0, CW(I, i, j))
Key(I, f, p) == <<Saving(I, f, p[1], p[2]), IF f.loose THEN 0 ELSE -Dist(I, p[1], p[2])>>
Above(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])

\* ---- the machine, step by step (used by the design model)
RouteWith(plan, c) == CHOOSE r \in plan : c \in Range(r)
EndOf(r, c) == r[1] = c \/ r[Len(r)] = c
Joined(r1, i, r2, j) ==      \* the two routes linked i-j
  (IF r1[Len(r1)] = i THEN r1 ELSE Reverse(r1)) \o (IF r2[1] = j THEN r2 ELSE Reverse(r2))
Joinable(I, plan, p) ==
  LET r1 == RouteWith(plan, p[1])  r2 == RouteWith(plan, p[2]) IN
    r1 # r2 /\ EndOf(r1, p[1]) /\ EndOf(r2, p[2]) /\ RouteOK(I, Joined(r1, p[1], r2, p[2]))
Join(plan, p) ==
  LET r1 == RouteWith(plan, p[1])  r2 == RouteWith(plan, p[2]) IN
    (plan \ {r1, r2}) \cup {CanonRoute(Joined(r1, p[1], r2, p[2]))}
Start(I) == {<<c>> : c \in Customers(I)}
Top(I, f, pend) == {p \in pend : \A q \in pend : ~Above(Key(I, f, q), Key(I, f, p))}
Dearer(I, p) == CW(I, p[1], p[2]) < 0

\* ---- the same process, looking back from its result
\* Valid when a refused join stays refused (no route-cost limit, or distances
\* obeying the triangle inequality); SavingsMC checks the equivalence.
Linked(R, p) == \E r \in R : \E k \in 1..Len(r)-1 : {r[k], r[k+1]} = {p[1], p[2]}
RECURSIVE GrowL(_, _, _, _, _), GrowR(_, _, _, _, _)
OrdPair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
GrowL(KK, r, lo, hi, key) == IF lo > 1 /\ ~Above(key, KK[OrdPair(r[lo-1], r[lo])]) THEN GrowL(KK, r, lo-1, hi, key) ELSE lo
GrowR(KK, r, lo, hi, key) == IF hi < Len(r) /\ ~Above(key, KK[OrdPair(r[hi], r[hi+1])]) THEN GrowR(KK, r, lo, hi+1, key) ELSE hi
\* the part of route r around its position k that exists once all joins with
\* keys not below key are done
PartAt(KK, r, k, key) == <<GrowL(KK, r, k, k, key), GrowR(KK, r, k, k, key)>>
RefusedAt(I, KK, R, p) ==
  LET r1 == RouteWith(R, p[1])   r2 == RouteWith(R, p[2])
      k1 == CHOOSE k \in DOMAIN r1 : r1[k] = p[1]
      k2 == CHOOSE k \in DOMAIN r2 : r2[k] = p[2]
      a == PartAt(KK, r1, k1, KK[p])  b == PartAt(KK, r2, k2, KK[p])
      s1 == SubSeq(r1, a[1], a[2])  s2 == SubSeq(r2, b[1], b[2]) IN
   \/ r1 = r2 /\ k2 \in a[1]..a[2]
   \/ k1 # a[1] /\ k1 # a[2]
   \/ k2 # b[1] /\ k2 # b[2]
   \/ ~RouteOK(I, Joined(s1, p[1], s2, p[2]))
SavingsClause(I, f, mk, R) ==
  LET P == Pairs(I)
      KK == TLCEval([p \in P |-> Key(I, f, p)])
      bad == IF mk THEN {} ELSE {p \in P : Dearer(I, p)}
      stops(p) == \E q \in bad : ~Above(KK[p], KK[q])     \* the process may have ended before p
      E == {p \in P : Linked(R, p)} IN
    IF \E p \in E : p \in bad THEN "joined routes although that makes the plan dearer"
    ELSE IF \E p \in E : \E q \in bad : Above(KK[q], KK[p]) THEN "joined routes after the first join that makes the plan dearer"
    ELSE IF \E p \in P \ E : ~stops(p) /\ ~RefusedAt(I, KK, R, p) THEN "skipped a possible join with a larger saving"
    ELSE "ok"
=============================================================================
