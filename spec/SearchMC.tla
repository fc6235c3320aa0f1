------------------------------ MODULE SearchMC ------------------------------
(* The local search design: slots hold routes, operators are tried on       *)
(* combinations of slots, and a combination without an improving move is    *)
(* remembered and skipped until one of its routes changes.  Accepting any   *)
(* improving feasible result of any operator in any order ends in a common  *)
(* local optimum of all operators, feasible and never dearer.               *)
EXTENDS Moves
CONSTANTS NC, SLOTS, OPS, VALS, CAPS
VARIABLES D, C, rt, known, start, pc
vars == <<D, C, rt, known, start, pc>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> [x \in 1..NC+1 |-> IF x = 1 THEN 0 ELSE 1], C |-> C, L |-> 0]
OneRoute(op) == op \in {"2opt", "3opt", "relocate", "exchange"}
Combos(op) == IF OneRoute(op) THEN {<<a>> : a \in 1..SLOTS}
              ELSE {p \in (1..SLOTS) \X (1..SLOTS) : p[1] # p[2] /\ (op = "2optstar" => p[1] < p[2])}
All == UNION {{<<op, p>> : p \in Combos(op)} : op \in OPS}
Rts(p) == [x \in DOMAIN p |-> rt[p[x]]]
Better(op, p) == {y \in Neighbours(op, Rts(p)) : (OneRoute(op) \/ AllOK(I, y)) /\ PlanCost(I, y) < PlanCost(I, Rts(p))}
Orders == {[k \in 1..NC |-> f[k]] : f \in Permutations(1..NC)}
StartPlans == {<<SubSeq(o, 1, m), SubSeq(o, m+1, NC)>> \o [x \in 1..SLOTS-2 |-> <<>>] : o \in Orders, m \in 0..NC}
Init == /\ D \in {Mat(f) : f \in [Ends -> VALS]} /\ C \in CAPS /\ rt \in StartPlans /\ AllOK(I, rt)
        /\ known = {} /\ start = PlanCost(I, rt) /\ pc = "run"
Touched(p) == {x \in All : Range(x[2]) \cap Range(p) # {}}
Try == /\ pc = "run"
       /\ \E x \in All \ known :
            LET B == Better(x[1], x[2]) IN
            IF B = {} THEN known' = known \cup {x} /\ UNCHANGED rt
            ELSE /\ \E y \in B : rt' = [s \in 1..SLOTS |-> IF s \in Range(x[2]) THEN y[CHOOSE j \in DOMAIN x[2] : x[2][j] = s] ELSE rt[s]]
                 /\ known' = known \ Touched(x[2])
       /\ UNCHANGED <<D, C, start, pc>>
Stop == pc = "run" /\ known = All /\ pc' = "done" /\ UNCHANGED <<D, C, rt, known, start>>
Next == Try \/ Stop
Memo == \A x \in known : Better(x[1], x[2]) = {}
Plan == Covers(I, rt) /\ AllOK(I, rt) /\ PlanCost(I, rt) <= start
Optimal == pc = "done" => \A x \in All : Better(x[1], x[2]) = {}
=============================================================================
