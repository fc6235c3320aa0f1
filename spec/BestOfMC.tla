------------------------------ MODULE BestOfMC ------------------------------
(* The search as a machine: settings are tried one after the other, in any  *)
(* order, each with any outcome; an interrupt may salvage the outcome of    *)
(* the running setting and ends the search.                                 *)
EXTENDS BestOf
CONSTANTS NSET, MAXK, MAXF
VARIABLES todo, tried, best, mk, pc
vars == <<todo, tried, best, mk, pc>>
Outs == (1..MAXK) \X (0..MAXF)
Init == todo = NSET /\ tried = <<>> /\ best = None /\ mk \in BOOLEAN /\ pc = "run"
Try == /\ pc = "run" /\ todo > 0
       /\ \E o \in Outs : tried' = Append(tried, o) /\ best' = Keep(mk, best, o)
       /\ todo' = todo - 1 /\ UNCHANGED <<mk, pc>>
\* the running setting is interrupted: what it salvaged (perhaps nothing) still takes part
Interrupt == /\ pc = "run" /\ todo > 0 /\ pc' = "interrupted" /\ UNCHANGED <<mk, todo>>
             /\ \/ UNCHANGED <<tried, best>>
                \/ \E o \in Outs : tried' = Append(tried, o) /\ best' = Keep(mk, best, o)
Done == pc = "run" /\ todo = 0 /\ pc' = "done" /\ UNCHANGED <<todo, tried, best, mk>>
Next == Try \/ Interrupt \/ Done
Spec == Init /\ [][Next]_vars
NotWorse  == best # None => \A k \in DOMAIN tried : ~Better(mk, tried[k], best)
OneOfThem == IF tried = <<>> THEN best = None ELSE best \in Range(tried)
IsFold    == best = BestOf(mk, tried)
\* the kept outcome never gets worse
Monotone  == [][best # None => (best' = best \/ Better(mk, best', best))]_vars
\* the order on objectives is a strict weak order, so "the best" is well defined
Order == \A m \in BOOLEAN : \A a, b, c \in Outs :
           /\ ~(Better(m, a, b) /\ Better(m, b, a))
           /\ Better(m, a, b) /\ Better(m, b, c) => Better(m, a, c)
           /\ Better(m, a, b) => (Better(m, a, c) \/ Better(m, c, b))
=============================================================================
