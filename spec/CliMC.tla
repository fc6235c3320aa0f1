-------------------------------- MODULE CliMC -------------------------------
(* Exhaustive model of the solve loop: every sequence of outcomes.          *)
EXTENDS Cli
CONSTANTS NF, NA
VARIABLES k, out, rows, best, stop
vars == <<k, out, rows, best, stop>>
\* a plan is abstracted to <<routes, feasible>>
Plans == (1..2) \X BOOLEAN
Outs == [k: {"none", "exc", "int"}, p: {<<>>}] \cup [k: {"sol", "intsol", "intls"}, p: Plans]
Inf == 99
RowOf(o) == IF HasPlan(o) THEN [n |-> o.p[1], ok |-> o.p[2], star |-> Interrupts(o)] ELSE [n |-> Inf, ok |-> FALSE, star |-> Interrupts(o)]
Init == k = 1 /\ out = <<>> /\ rows = <<>> /\ stop = FALSE /\ best = [f \in 1..NF |-> Inf]
Solve == /\ ~stop /\ k <= NF*NA /\ k' = k+1
         /\ \E o \in Outs :
              LET at == Attempt(NA, k) IN
              /\ out' = Append(out, o)
              /\ rows' = Append(rows, [at |-> at, r |-> RowOf(o)])
              /\ best' = IF HasPlan(o) THEN [best EXCEPT ![at[1]] = Min2(@, o.p[1])] ELSE best
              /\ stop' = Interrupts(o)
Next == Solve
Spec == Init /\ [][Next]_vars /\ WF_vars(Solve)
OneResultEach == \A i, j \in DOMAIN rows : rows[i].at = rows[j].at => i = j
InOrder       == \A i \in DOMAIN rows : rows[i].at = Attempt(NA, i)
OnlyItsOutcome == \A i \in DOMAIN rows : rows[i].r = RowOf(out[i])
FailuresAreInfinite == \A i \in DOMAIN rows : ~HasPlan(out[i]) => (rows[i].r.n = Inf /\ ~rows[i].r.ok)
StopsAtInterrupt == \A i \in DOMAIN rows : rows[i].r.star => i = Len(rows)
MadeOK        == Len(rows) = Made(out)
BestIsMin     == \A f \in 1..NF : LET S == {rows[i].r.n : i \in {j \in DOMAIN rows : rows[j].at[1] = f /\ HasPlan(out[j])}}
                                  IN best[f] = IF S = {} THEN Inf ELSE Min(S)
Names == NamesOK
Terminates == <>(stop \/ k = NF*NA+1)
=============================================================================
