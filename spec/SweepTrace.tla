----------------------------- MODULE SweepTrace -----------------------------
(* Conformance of the sweep: r.how = "one" a single sweep from position     *)
(* r.start in direction r.inc, "first" all first routes from there,         *)
(* "init" the heuristic with a set of starts (positions) and directions.    *)
EXTENDS Sweep, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
\* the sets of starts the call may use: closest to the depot leaves ties open
StartSets == IF r.starts = <<>>
             THEN {{k} : k \in {x \in DOMAIN r.ord : \A j \in DOMAIN r.ord : RhoSq(r.pts, r.ord[x]) <= RhoSq(r.pts, r.ord[j])}}
             ELSE {Range(r.starts)}
Opts(S) == {SweepRoutes(I, r.ord, s, inc) : s \in S, inc \in Range(r.incs)}
Best(S) == LET O == Opts(S) IN
  r.routes \in O /\ \A o \in O : Better(I, r.mk, o, r.routes) => PlanCost(I, o) = PlanCost(I, r.routes)
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF ~SortedByAngle(r.pts, r.ord) THEN "customers are not in angle order"
  ELSE IF ~r.part /\ ~IsPermutationOf(r.ord, Customers(I)) THEN "the circular order misses customers"
  ELSE IF r.how = "first" THEN
       IF Range(r.routes) = Firsts(I, Reading(r.ord, r.starts[1], r.incs[1]), 1) THEN "ok" ELSE "not all first routes of the sweep"
  ELSE IF \A S \in StartSets : r.routes \notin Opts(S) THEN "not the consecutive maximal routes of a sweep"
  ELSE IF \A S \in StartSets : ~Best(S) THEN "another start or direction is better"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
