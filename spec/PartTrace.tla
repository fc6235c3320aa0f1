------------------------------ MODULE PartTrace ----------------------------
(* Conformance of the methods built on exact subproblems: plans of the      *)
(* matching based savings heuristic are ends of runs of Matching, the petal *)
(* method leaves no cheaper selection of its petals, the generalised        *)
(* assignment method needs no more vehicles than the loads do.              *)
EXTENDS Matching, Json, IOUtils
S == INSTANCE Sweep
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
rs == Routes(r.sol)
Sets(qs) == {Range(qs[k]) : k \in DOMAIN qs}

MatchClause == LET t == TourCosts(I) IN
  IF \E k \in DOMAIN rs : RouteCost(I, rs[k]) # t[Range(rs[k])] THEN "a route is not a shortest tour"
  ELSE IF ~Reaches(I, t, r.W, r.mk, 10000, Singles(I), Sets(rs)) THEN "no run of the heuristic ends with these routes"
  ELSE "ok"

\* the petals: given ones, or every run of neighbours in angle order that fits
Given == {<<Range(p), RouteCost(I, p)>> : p \in Range(r.petals)}
Arcs == LET N == I.n IN {A \in {{r.ord[((k + m - 1) % N) + 1] : m \in 0..l-1} : k \in 1..N, l \in 1..N} : SetFits(I, A)}
Collection == IF r.how = "sweep" THEN LET t == TourCosts(I) IN {<<A, t[A]>> : A \in {B \in Arcs : I.L = 0 \/ t[B] <= I.L}} ELSE Given
PetalClause ==
  IF r.how = "sweep" /\ ~S!SortedByAngle(r.pts, r.ord) THEN "HARNESS: order of the angles"
  ELSE
  LET best == TLCEval(CheapestCover(I.n, Collection))
      fits == {m \in 1..I.n : best[m] < INF}
      m == Len(rs)
      cost == PlanCost(I, rs)
      need == MinS(fits)
      allowed == IF r.K > 0 THEN MinS({x \in fits : x >= r.K \/ x = MaxS(fits)}) ELSE IF r.mk THEN need ELSE I.n IN
  IF fits = {} THEN "HARNESS: petals do not cover"
  ELSE IF m > allowed THEN "more routes than a selection needs"
  ELSE IF best[m] < cost THEN "a cheaper selection of the petals is left"
  ELSE IF r.K > 0 /\ best[r.K] < cost THEN "a cheaper selection of as many petals is left"
  ELSE IF r.K = 0 /\ ~r.mk /\ best[I.n] < cost THEN "a cheaper selection of the petals is left"
  ELSE "ok"

GapClause == LET b == FewestVehicles(I) m == Len(rs) IN
  IF r.K > 0 /\ m > r.K THEN "more routes than asked for"
  ELSE IF r.K = 0 /\ r.mk /\ I.L = 0 /\ m # b THEN "more vehicles than the loads need"
  ELSE IF r.bound >= 0 /\ PlanCost(I, rs) > r.bound THEN "dearer than with the fewest vehicles"
  ELSE "ok"

Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out = "none" /\ r.kind = "gap" THEN
     IF I.L > 0 \/ (r.K > 0 /\ r.K < FewestVehicles(I)) THEN "ok" ELSE "no plan although there is one"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 \/ ~Known(I, r.sol) THEN "malformed plan"
  ELSE IF ~IsPermutationOf(AllStops(rs), Customers(I)) THEN "customers missing or repeated"
  ELSE IF \E k \in DOMAIN rs : ~RouteOK(I, rs[k]) THEN "breaks a limit"
  ELSE CASE r.kind = "match" -> MatchClause
         [] r.kind = "petal" -> PetalClause
         [] r.kind = "gap" -> GapClause
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
