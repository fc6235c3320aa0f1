------------------------------- MODULE BestOf -------------------------------
(* Searches that try several settings and keep the best outcome.  An        *)
(* outcome is <<routes, cost>>; mk asks for fewest routes first.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
None == <<>>
Better(mk, a, b) == IF mk THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) ELSE a[2] < b[2]
Keep(mk, best, a) == IF best = None \/ Better(mk, a, best) THEN a ELSE best
\* best of a sequence of outcomes tried in order
BestOf(mk, outs) == FoldLeft(LAMBDA acc, a: Keep(mk, acc, a), None, outs)
\* same objective value (a is as good as b)
Equal(mk, a, b) == ~Better(mk, a, b) /\ ~Better(mk, b, a)
=============================================================================
