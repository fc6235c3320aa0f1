----------------------------- MODULE SplitTrace -----------------------------
(* Conformance of route-first cluster-second.  A record holds the giant     *)
(* tour g and the returned routes; r.table = <<>>: routes are driven in     *)
(* tour order and cost what the matrix says; otherwise r.table[s][m] is the *)
(* cost the routing procedure reported for the arc (BIG = not asked).       *)
EXTENDS Split, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tid, v>>
r == Trace[tid]
I == Insts[r.i]
N == Len(r.g)
\* fewest routes first: a route costs more than any two splits can differ
PerRoute == IF r.mk THEN 1 + PathCost(I, r.g \o <<r.g[1]>>) + 2*FoldLeft(LAMBDA a, x: a + x, 0, I.D[1]) ELSE 0
ArcCost(s, m) == LET a == Arc(r.g, s, m) IN
  IF ~CapOK(I, a) THEN INF
  ELSE IF r.table = <<>> THEN (IF LenOK(I, a) THEN RouteCost(I, a) + PerRoute ELSE INF)
  ELSE IF r.table[s][m] >= INF \/ (I.L # 0 /\ r.table[s][m] > I.L) THEN INF ELSE r.table[s][m] + PerRoute
ArcsOf(x) == {s \in 1..N : Range(Arc(r.g, s, Len(x))) = Range(x) /\ (r.table = <<>> => Arc(r.g, s, Len(x)) = x)}
Clause ==
  IF r.out = "hang" THEN "did not terminate"
  ELSE IF r.out # "plan" THEN "failed with an error"
  ELSE IF r.sol = <<>> \/ r.sol[1] # 0 \/ r.sol[Len(r.sol)] # 0 THEN "does not start and end at the depot"
  ELSE IF ~Known(I, r.sol) THEN "unknown customer"
  ELSE LET rs == Routes(r.sol) IN
   IF ~IsPermutationOf(AllStops(rs), Customers(I)) THEN "customers missing or repeated"
   ELSE IF \E k \in DOMAIN rs : ~RouteOK(I, rs[k]) THEN "a route breaks a limit"
   ELSE IF \E k \in DOMAIN rs : ArcsOf(rs[k]) = {} THEN "a route is not a run of consecutive customers of the giant tour"
   ELSE LET PR == PerRoute
            AC == TLCEval([s \in 1..N |-> [m \in 1..N |-> ArcCost(s, m)]])
            cost == FoldLeft(LAMBDA acc, x: acc + Min({AC[s][Len(x)] : s \in ArcsOf(x)}), 0, rs) IN
     IF \E x \in Range(rs) : Min({AC[s][Len(x)] : s \in ArcsOf(x)}) >= INF THEN "a route is not one the split may use"
     ELSE IF cost # Optimum(I, r.g, AC) THEN "not the cheapest split"
     ELSE IF \E x \in Range(rs) : RouteCost(I, x) + PerRoute > Min({AC[s][Len(x)] : s \in ArcsOf(x)}) THEN "a route got longer after the split"
     ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = "" /\ UNCHANGED tid
        /\ LET c == Clause IN v' = c /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
=============================================================================
