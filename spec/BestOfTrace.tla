----------------------------- MODULE BestOfTrace ----------------------------
(* Conformance of best-of searches and of the comparison rule.              *)
(*  what = "cmp": one call of the comparison rule: best, cand, res          *)
(*  what = "search": res is the outcome of the search, cands the outcomes   *)
(*    of each of its settings run alone; with fine # <<>> the search also   *)
(*    tries fine[k] around the best setting k among cands; exact: cands are *)
(*    all the settings there are.                                           *)
EXTENDS BestOf, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
Search ==
  LET all == r.cands IN
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF \E k \in DOMAIN all : Better(r.mk, all[k], r.res) THEN "worse than one of the settings it tries"
  ELSE IF ~r.exact THEN "ok"
  ELSE IF r.fine = <<>> THEN
     IF \E k \in DOMAIN all : Equal(r.mk, all[k], r.res) THEN "ok" ELSE "not the result of any of the settings it tries"
  ELSE LET b == BestOf(r.mk, all)
           mids == {k \in DOMAIN all : Equal(r.mk, all[k], b)}
       IN IF \E k \in mids : Equal(r.mk, r.res, Keep(r.mk, b, BestOf(r.mk, r.fine[k]))) THEN "ok"
          ELSE "not the best of the settings around the best one"
Cmp == LET want == IF r.cand = None THEN FALSE ELSE IF r.best = None THEN TRUE ELSE Better(r.mk, r.cand, r.best)
       IN IF r.out # "plan" THEN "failed with an error" ELSE IF r.ans = want THEN "ok" ELSE "comparison rule is wrong"
Clause == IF r.what = "cmp" THEN Cmp ELSE Search
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
