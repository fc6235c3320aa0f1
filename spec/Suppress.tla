------------------------------ MODULE Suppress -----------------------------
(* The perturbed savings heuristic of Holmes and Parker as a machine.       *)
(* State: the pairs suppressed so far and the best plan so far.  A round    *)
(* runs the savings process on savings in which suppressed pairs (and pairs *)
(* that save nothing) count as zero, keeps the plan if it is better, and    *)
(* then suppresses the pair that was on top of that round's list.           *)
EXTENDS Savings

SF(supp) == [name |-> "supp", q |-> 1, g |-> 1, f |-> 0, supp |-> SetToSeq(supp), loose |-> FALSE]
\* the list of a round and the plan its process ends with (distances of the
\* pairs all different: then the order of the list is determined)
Listed(I, supp) == LET KK == TLCEval([p \in Pairs(I) |-> Key(I, SF(supp), p)])
                   IN SortSeq(SetToSeq(Pairs(I)), LAMBDA a, b: Above(KK[a], KK[b]))
ProcessEnd(I, mk, list) ==
  FoldLeft(LAMBDA s, p: IF s.stop THEN s
                        ELSE IF ~mk /\ Dearer(I, p) THEN [s EXCEPT !.stop = TRUE]
                        ELSE IF Joinable(I, s.plan, p) THEN [s EXCEPT !.plan = Join(s.plan, p)] ELSE s,
           [plan |-> Start(I), stop |-> FALSE], list).plan
Worth(I, R) == <<Cardinality(R), FoldSet(LAMBDA q, a: a + RouteCost(I, q), 0, R)>>
Better(mk, a, b) == IF mk THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) ELSE a[2] < b[2]

VARIABLES supp, best, round
svars == <<supp, best, round>>
SInit == supp = {} /\ best = {} /\ round = 0
Rounds(I, lp) == Max2(1, Min2(IF lp = 0 THEN (I.n \div 7) + 5 ELSE lp, (I.n*(I.n-1)) \div 2))   \* 0: automatic
\* best: the plans that are best so far (more than one if equally good)
Round(I, mk, lp) ==
  /\ round < Rounds(I, lp) /\ round' = round + 1
  /\ LET list == TLCEval(Listed(I, supp))
         R == TLCEval(ProcessEnd(I, mk, list))
         old == CHOOSE B \in best : TRUE IN
     /\ best' = IF best = {} \/ Better(mk, Worth(I, R), Worth(I, old)) THEN {R}
                ELSE IF Better(mk, Worth(I, old), Worth(I, R)) THEN best ELSE best \cup {R}
     /\ supp' = IF list = <<>> THEN supp ELSE supp \cup {list[1]}
=============================================================================
