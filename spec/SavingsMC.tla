----------------------------- MODULE SavingsMC -----------------------------
(* Design model of the savings process on all matrices over a value set:    *)
(* every plan it ends with is a complete feasible plan that satisfies the   *)
(* look-back characterisation the checks use (no false alarms), and every   *)
(* plan satisfying the characterisation can be ended with (guided by it the *)
(* machine gets there), so the characterisation is exact.                   *)
EXTENDS Savings
CONSTANTS NC, VALS, FN, CAPS, LIMS
VARIABLES I, mk, goal, plan, pend, done
vars == <<I, mk, goal, plan, pend, done>>
F == [name |-> FN, q |-> 2, g |-> 3, f |-> 1, supp |-> <<<<1, 2>>>>, loose |-> FALSE]

Sym(v) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE v[{a, b}]]]
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Metric(J) == \A a, b, c \in Nodes(J) : Dist(J, a, b) <= Dist(J, a, c) + Dist(J, c, b)
Insts == {J \in {[n |-> NC, D |-> Sym(v), d |-> [k \in 1..NC+1 |-> k-1], C |-> c, L |-> l]
                  : v \in [Edges -> VALS], c \in CAPS, l \in LIMS} :
            /\ J.L = 0 \/ Metric(J)
            /\ \A c \in Customers(J) : RouteOK(J, <<c>>)}
\* all plans: permutations cut anywhere
Perms == {p \in [1..NC -> 1..NC] : \A a, b \in 1..NC : p[a] = p[b] => a = b}
CutAt(p, S) == FoldLeft(LAMBDA acc, k: IF k \in S \/ acc = <<>> THEN Append(acc, <<p[k]>>)
                                       ELSE [acc EXCEPT ![Len(acc)] = Append(@, p[k])],
                        <<>>, [k \in 1..NC |-> k])
Plans == {PlanSet(CutAt(p, S)) : p \in Perms, S \in SUBSET (2..NC)}
GoodGoals(J, m) == {R \in Plans : (\A x \in R : RouteOK(J, x)) /\ SavingsClause(J, F, m, R) = "ok"}

\* goal = {} : run freely; otherwise run towards goal
Init == /\ I \in Insts /\ mk \in BOOLEAN
        /\ goal \in GoodGoals(I, mk) \cup {{}}
        /\ plan = Start(I) /\ pend = Pairs(I) /\ done = FALSE
Look(p) ==
  /\ ~done /\ p \in Top(I, F, pend)
  /\ goal # {} =>       \* towards the goal: its joins first, then what stops the process, then the rest
       LET T == Top(I, F, pend)
           rank(q) == IF Linked(goal, q) THEN 0 ELSE IF ~mk /\ Dearer(I, q) THEN 1 ELSE 2 IN
         \A q \in T : rank(p) <= rank(q)
  /\ IF ~mk /\ Dearer(I, p) THEN done' = TRUE /\ UNCHANGED <<plan, pend>>
     ELSE /\ pend' = pend \ {p}
          /\ plan' = IF Joinable(I, plan, p) THEN Join(plan, p) ELSE plan
          /\ UNCHANGED done
  /\ UNCHANGED <<I, mk, goal>>
End == /\ ~done /\ pend = {} /\ done' = TRUE /\ UNCHANGED <<I, mk, goal, plan, pend>>
Next == (\E p \in pend : Look(p)) \/ End
\* invariants
Complete == IsPermutationOf(AllStops(SetToSeq(plan)), Customers(I))
Within == \A r \in plan : RouteOK(I, r)
Result == done => IF goal = {} THEN SavingsClause(I, F, mk, plan) = "ok" ELSE plan = goal
Cheaper == done /\ ~mk /\ FN \in {"cw"} => FoldSet(LAMBDA r, a: a + RouteCost(I, r), 0, plan)
                <= FoldSet(LAMBDA c, a: a + RouteCost(I, <<c>>), 0, Customers(I))
=============================================================================
