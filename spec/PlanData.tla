------------------------------ MODULE PlanData ------------------------------
(* What the data-level operations on plans mean (feasibility report,        *)
(* encodings and canonical form, service times, route records, the built-in *)
(* TSP solver).  Each record is one call of the real code with its result.  *)
EXTENDS Moves, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v

\* ---- a stop sequence with a depot visit, read as a cycle
FirstDepot(t) == CHOOSE k \in DOMAIN t : t[k] = 0 /\ \A j \in 1..(k-1) : t[j] # 0
Cycle(t) == LET p == FirstDepot(t) IN SubSeq(t, p, Len(t)) \o SubSeq(t, 1, p-1)   \* starts at 0
CycleRoutes(t) == Routes(Cycle(t))
CycleCost(I, t) == PathCost(I, t) + Dist(I, t[Len(t)], t[1])

\* ---- C18
Report(I, t) == LET rs == CycleRoutes(t) IN
  << \A c \in Customers(I) : Cardinality({k \in DOMAIN t : t[k] = c}) = 1,
     \A k \in DOMAIN rs : CapOK(I, rs[k]),
     \A k \in DOMAIN rs : LenOK(I, rs[k]) >>
ReportClause(q, I) == LET w == Report(I, q.t) IN
  IF Len(q.res) # 3 THEN "not three verdicts"
  ELSE IF q.res[1] # w[1] THEN "covering verdict is wrong"
  ELSE IF q.res[2] # w[2] THEN "capacity verdict is wrong"
  ELSE IF q.res[3] # w[3] THEN "route cost verdict is wrong"
  ELSE "ok"

\* ---- C19: rs the plan (open routes), results of the encodings
Strip(r) == SelectSeq(r, LAMBDA x: x # 0)
NonEmpty(rs) == SelectSeq(rs, LAMBDA x: x # <<>>)
StartsEndsDepot(t) == t # <<>> /\ t[1] = 0 /\ t[Len(t)] = 0
NoRepeat(t) == \A k \in 1..(Len(t)-1) : t[k] # t[k+1]
Edges(t) == {<<t[k], t[k+1]>> : k \in 1..(Len(t)-1)}
Undirected(E) == {IF e[1] < e[2] THEN e ELSE <<e[2], e[1]>> : e \in E}
PairSet(es) == {<<es[k][1], es[k][2]>> : k \in DOMAIN es}
EncClause(q, I) ==
  LET rs == NonEmpty(q.rs) IN
  CASE q.op = "cost" -> IF q.num = (IF q.cyclic THEN CycleCost(I, q.t) ELSE PlanCost(I, rs)) THEN "ok" ELSE "recomputed cost is not the sum of the edges"
    [] q.op = "objf" -> IF q.num = PathCost(I, q.t) THEN "ok" ELSE "cost of a tour is not the sum of its edges"
    [] q.op = "totald" -> IF q.num = LoadOf(I, q.t) THEN "ok" ELSE "demand of a tour is not the sum of its demands"
    [] q.op = "normalize" ->
         IF ~StartsEndsDepot(q.res[1]) \/ ~NoRepeat(q.res[1]) THEN "canonical form is not a tour without empty routes"
         ELSE IF PlanSet(Routes(q.res[1])) # PlanSet(rs) THEN "canonical form has other routes"
         ELSE IF \E k \in DOMAIN q.res : q.res[k] # q.res[1] THEN "equal plans have different canonical forms"
         ELSE IF Symmetric(I) /\ PathCost(I, q.res[1]) # PlanCost(I, rs) THEN "canonical form has another cost"
         ELSE "ok"
    [] q.op = "sol2routes" ->
         IF \E k \in DOMAIN q.res : ~StartsEndsDepot(q.res[k]) \/ Len(q.res[k]) < 3 THEN "a split route is not closed at the depot"
         ELSE IF [k \in DOMAIN q.res |-> Strip(q.res[k])] # rs \/ \E k \in DOMAIN q.res : Len(q.res[k]) # Len(rs[k])+2 THEN "splitting the tour changed the routes"
         ELSE "ok"
    [] q.op = "routes2sol" ->
         IF ~StartsEndsDepot(q.res[1]) THEN "joined tour does not start and end at the depot"
         ELSE IF Routes(q.res[1]) # rs THEN "joining the routes changed them" ELSE "ok"
    [] q.op = "noempty" ->
         IF ~NoRepeat(q.res[1]) \/ Routes(q.res[1]) # rs \/ ~StartsEndsDepot(q.res[1]) THEN "removing empty routes changed the plan" ELSE "ok"
    [] q.op = "edges" ->
         IF PairSet(q.edges) # (IF q.sym THEN Undirected(Edges(q.t)) ELSE Edges(q.t)) THEN "edge set is wrong" ELSE "ok"

\* ---- C20: J is the instance with the returned matrix
SmallRoutes(I) == UNION {{s \in [1..m -> Customers(I)] : \A a, b \in 1..m : a # b => s[a] # s[b]} : m \in 1..Min2(3, I.n)}
ServiceClause(q, I) == LET J == [I EXCEPT !.D = q.mat] IN
  IF q.mut THEN "the original matrix was changed"
  ELSE IF Len(q.mat) # I.n+1 \/ \E k \in DOMAIN q.mat : Len(q.mat[k]) # I.n+1 THEN "matrix has another size"
  ELSE IF \E a \in Nodes(I) : Dist(J, a, a) # 0 THEN "a self-distance is not zero"
  ELSE IF \E s \in SmallRoutes(I) : RouteCost(J, s) # RouteCost(I, s) + Len(s)*q.st THEN "service time is not charged once per customer"
  ELSE "ok"

\* ---- C24
TspClause(q, I) ==
  LET nodes == q.nodes IN     \* given order, depot first, no closing visit
  IF q.tour = <<>> \/ q.tour[1] # 0 \/ q.tour[Len(q.tour)] # 0 THEN "does not start and end at the depot"
  ELSE IF Len(q.tour) # Len(nodes)+1 \/ Range(q.tour) # Range(nodes) THEN "does not visit each given node exactly once"
  ELSE LET x == SubSeq(q.tour, 2, Len(q.tour)-1)
           y == SubSeq(nodes, 2, Len(nodes)) IN
    IF q.num # RouteCost(I, x) THEN "returned cost is not the cost of the tour"
    ELSE IF q.num > RouteCost(I, y) THEN "worse than the given order"
    ELSE IF \E z \in TwoOpt(x) : RouteCost(I, z) < RouteCost(I, x) THEN "a 2-opt move improves the tour"
    ELSE IF q.three /\ \E z \in ThreeOpt(x) : RouteCost(I, z) < RouteCost(I, x) THEN "a 3-opt move improves the tour"
    ELSE IF q.mut THEN "the arguments were changed" ELSE "ok"

\* ---- C25: r the closed route
Prefix(I, r, k) == PathCost(I, SubSeq(r, 1, k))
Suffix(I, r, k) == PathCost(I, SubSeq(r, k, Len(r)))
RecordClause(q, I) ==
  LET bad(r, rec) ==
        IF rec.route # r THEN "record has another route"
        ELSE IF rec.cost # PathCost(I, r) THEN "record has a wrong cost"
        ELSE IF rec.dem # (IF q.hasd THEN LoadOf(I, r) ELSE 0) THEN "record has a wrong demand"
        ELSE IF {rec.nodes[k] : k \in DOMAIN rec.nodes} # Range(Strip(r)) THEN "record has wrong customers"
        ELSE IF rec.fwd_l # [k \in DOMAIN r |-> Prefix(I, r, k)] THEN "forward costs are wrong"
        ELSE IF rec.rwd_l # [k \in DOMAIN r |-> Suffix(I, r, k)] THEN "backward costs are wrong"
        ELSE IF rec.fwd_d # [k \in DOMAIN r |-> IF q.hasd THEN LoadOf(I, SubSeq(r, 1, k)) ELSE 0] THEN "forward loads are wrong"
        ELSE IF rec.rwd_d # [k \in DOMAIN r |-> IF q.hasd THEN LoadOf(I, SubSeq(r, k, Len(r))) ELSE 0] THEN "backward loads are wrong"
        ELSE IF rec.empty # (Strip(r) = <<>>) THEN "emptiness is wrong"
        ELSE IF rec.norm # r /\ rec.norm # Reverse(r) THEN "normalisation does more than reverse the route"
        ELSE IF Len(r) >= 3 /\ rec.norm[2] > rec.norm[Len(r)-1] THEN "normalised route does not start at its smaller end"
        ELSE "" IN
  IF Len(q.recs) # Len(q.closed) THEN "wrong number of records"
  ELSE IF \E k \in DOMAIN q.recs : bad(q.closed[k], q.recs[k]) # "" THEN
         bad(q.closed[CHOOSE k \in DOMAIN q.recs : bad(q.closed[k], q.recs[k]) # ""],
             q.recs[CHOOSE k \in DOMAIN q.recs : bad(q.closed[k], q.recs[k]) # ""])
  ELSE IF ~StartsEndsDepot(q.back) \/ Routes(q.back) # NonEmpty([k \in DOMAIN q.closed |-> Strip(q.closed[k])]) THEN "converting back gives another plan"
  ELSE "ok"

Clause(q) == LET I == Insts[q.i] IN
  IF q.out # "ret" THEN IF q.out = "hang" THEN "did not terminate" ELSE IF q.out = "malformed" THEN "malformed result" ELSE "failed with an error"
  ELSE CASE q.kind = "report" -> ReportClause(q, I)
         [] q.kind = "enc"    -> EncClause(q, I)
         [] q.kind = "st"     -> ServiceClause(q, I)
         [] q.kind = "tsp"    -> TspClause(q, I)
         [] q.kind = "rd"     -> RecordClause(q, I)
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = ""
        /\ LET c == Clause(Trace[tid]) IN
             /\ v' = c
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
        /\ UNCHANGED tid
=============================================================================
