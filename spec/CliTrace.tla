------------------------------ MODULE CliTrace ------------------------------
(* Conformance of the command line.                                         *)
(*  what = "run":   one invocation over files x heuristics; the record's    *)
(*    observations are consumed by the machine of Cli, attempt by attempt   *)
(*  what = "solo":  repeated solving of files with one heuristic            *)
(*  what = "files": the problem files found behind paths                    *)
(*  what = "names": the heuristics selected by names                        *)
(* Lengths are scaled by 2 (a service time counts half at either end).      *)
(* A number -1 stands for an infinite one, -2 for one not printed.          *)
EXTENDS Cli, BestOf, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, k, v
vars == <<tid, k, v>>
r == Trace[tid]

\* ------------------------------------------------------------- the problem
\* a file is [name, n, how, D, xy, d, C, L, st, rnd]: with how = "xy" distances come from
\* integer coordinates, rounded as rnd says; D, C, L, st as in the file (0: absent)
Nearest(q) == CHOOSE m \in 0..200 : (m = 0 \/ (2*m-1)*(2*m-1) <= 4*q) /\ 4*q < (2*m+1)*(2*m+1)
Downward(q) == CHOOSE m \in 0..200 : m*m <= q /\ q < (m+1)*(m+1)
Upward(q) == CHOOSE m \in 0..200 : (m = 0 \/ (m-1)*(m-1) < q) /\ q <= m*m
Sq(f, a, b) == LET x == f.xy[a][1]-f.xy[b][1]  y == f.xy[a][2]-f.xy[b][2] IN x*x+y*y
Dist1(f, a, b) == IF f.how = "D" THEN f.D[a][b]
                  ELSE CASE f.rnd = "near" -> Nearest(Sq(f, a, b)) [] f.rnd = "down" -> Downward(Sq(f, a, b)) [] f.rnd = "up" -> Upward(Sq(f, a, b))
\* the travelled lengths and the costs (service time included) of a file's problem, doubled
Lengths(f) == TLCEval([a \in 1..(f.n+1) |-> [b \in 1..(f.n+1) |-> 2*Dist1(f, a, b)]])
Costs(f) == LET W == Lengths(f) IN
            TLCEval([a \in 1..(f.n+1) |-> [b \in 1..(f.n+1) |-> IF a = b THEN 0 ELSE W[a][b] + (IF a = 1 \/ b = 1 THEN f.st ELSE 2*f.st)]])
ByLength(f) == [n |-> f.n, D |-> Lengths(f), d |-> f.d, C |-> f.C, L |-> 0]
ByCost(f)   == [n |-> f.n, D |-> Costs(f), d |-> f.d, C |-> f.C, L |-> 2*f.L]

\* ------------------------------------------------------- one printed solution
Count(rs, x) == Cardinality({i \in DOMAIN rs : CanonRoute(rs[i]) = x})
SamePlan(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, CanonRoute(a[i])) = Count(b, CanonRoute(a[i]))
Visits(rt) == [c \in Range(rt) |-> Cardinality({i \in DOMAIN rt : rt[i] = c})]
SameGroups(a, b) == LET A == [i \in DOMAIN a |-> Visits(a[i])]  B == [i \in DOMAIN b |-> Visits(b[i])]
                        Of(S, x) == Cardinality({i \in DOMAIN S : S[i] = x})
                    IN Len(a) = Len(b) /\ \A i \in DOMAIN A : Of(A, A[i]) = Of(B, A[i])
CoverOK(f, rs) == Covers(ByCost(f), rs)
AllCapOK(f, rs) == f.C = 0 \/ \A i \in DOMAIN rs : CapOK(ByCost(f), rs[i])
AllLenOK(f, rs) == \A i \in DOMAIN rs : LenOK(ByCost(f), rs[i])
AllOK(f, rs) == CoverOK(f, rs) /\ AllCapOK(f, rs) /\ AllLenOK(f, rs)
Bool(b) == IF b THEN 1 ELSE 0
\* p: [sol, feas, served, capok, lenok, K, cost, len, vrph, rows, tight, cap, lim, st]
Printed(f, p) ==
  LET rs == Routes(p.sol)
      c == PlanCost(ByCost(f), rs)  l == PlanCost(ByLength(f), rs) IN
  IF p.sol = <<>> \/ p.sol[1] # 0 \/ p.sol[Len(p.sol)] # 0 THEN "printed solution is not a closed tour"
  ELSE IF p.K # Len(rs) THEN "printed number of routes is wrong"
  ELSE IF p.cost # -2 /\ p.cost # c THEN "printed cost is wrong"
  ELSE IF p.len # -2 /\ p.len # l THEN "printed length is wrong"
  ELSE IF p.cost = -2 /\ (p.len = -2 \/ (c # l /\ ~r.terse)) THEN "cost or length is missing"
  ELSE IF p.feas = -2 /\ p.served = -2 THEN "feasibility is missing"
  ELSE IF p.feas # -2 /\ p.feas # Bool(AllOK(f, rs)) THEN "printed feasibility is wrong"
  ELSE IF p.served # -2 /\ p.served # Bool(CoverOK(f, rs)) THEN "printed feasibility is wrong"
  ELSE IF p.served # -2 /\ f.C # 0 /\ p.capok # Bool(AllCapOK(f, rs)) THEN "printed feasibility is wrong"
  ELSE IF p.served # -2 /\ f.L # 0 /\ p.lenok # Bool(AllLenOK(f, rs)) THEN "printed feasibility is wrong"
  ELSE IF p.rows # <<>> /\ ~SamePlan([i \in DOMAIN p.rows |-> Routes(p.rows[i].route)[1]], rs) THEN "route table does not list the solution's routes"
  ELSE IF \E i \in DOMAIN p.rows : LET rt == Routes(p.rows[i].route)[1] IN
             p.rows[i].cost # RouteCost(ByCost(f), rt) \/ p.rows[i].len # RouteCost(ByLength(f), rt) \/ (f.C # 0 /\ p.rows[i].load # RouteLoad(ByCost(f), rt))
       THEN "route table has wrong figures"
  ELSE IF p.total # <<>> /\ p.total # <<c, l>> THEN "route table has wrong figures"
  ELSE IF p.lim # -2 /\ p.lim # f.L THEN "printed limits are wrong"
  ELSE IF f.C # 0 /\ p.cap # -2 /\ p.cap # f.C THEN "printed limits are wrong"
  ELSE "ok"
\* routes written as VRPH does: the first customer of a route negative, a last 0
RECURSIVE VrphRoutes(_, _, _, _)
VrphRoutes(t, i, cur, acc) ==
  IF i > Len(t) \/ t[i] = 0 THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF t[i] < 0 THEN VrphRoutes(t, i+1, <<-t[i]>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE VrphRoutes(t, i+1, Append(cur, t[i]), acc)
VrphOK(p) == p.vrph = <<>> \/ SamePlan(VrphRoutes(p.vrph, 1, <<>>, <<>>), Routes(p.sol))

\* no route can be improved by reversing a part of it
TwoOptimal(W, rt) == \A i \in 1..Len(rt), j \in 1..Len(rt) : i < j =>
                     PathCost(W, Closed(SubSeq(rt, 1, i-1) \o Reverse(SubSeq(rt, i, j)) \o SubSeq(rt, j+1, Len(rt)))) >= RouteCost(W, rt)

\* ---------------------------------------------------------------- "run"
Algos == r.algos
F(kk) == r.files[Attempt(Len(Algos), kk)[1]]
A(kk) == Attempt(Len(Algos), kk)[2]
Out(kk) == IF r.sim THEN [k |-> "none", sol |-> <<>>] ELSE r.out[Attempt(Len(Algos), kk)[1]][A(kk)]
Total == Len(r.files) * Len(Algos)
Outs == [kk \in 1..Total |-> Out(kk)]
NMade == Made(Outs)
Measure(f, rs) == IF r.costs THEN PlanCost(ByCost(f), rs) ELSE PlanCost(ByLength(f), rs)

ArgsOK(f, c) ==
  /\ c.D = Costs(f) /\ (f.C = 0 \/ c.d = f.d) /\ c.C = f.C /\ c.L = f.L /\ c.st = f.st /\ c.npts = f.n+1
  /\ (f.how = "xy" => c.pts = f.xy /\ c.wtt = f.wtt) /\ c.one = r.one /\ c.mk = r.mk
RowMin(kk, o) ==
  LET f == F(kk)  w == Out(kk)  rs == Routes(w.sol) IN
  IF o.alg # Algos[A(kk)].ab \/ o.file # f.name THEN "results are not in order, one for each attempt"
  ELSE IF o.star # Bool(Interrupts(w)) THEN "interrupt is not marked on the result"
  ELSE IF ~HasPlan(w) THEN IF o.feas = 0 /\ o.f = -1 /\ o.K = -1 THEN "ok" ELSE "failed attempt reports a result"
  ELSE IF o.K # Len(rs) THEN "reported number of routes is wrong"
  ELSE IF r.ls = <<>> THEN IF o.f # Measure(f, rs) THEN "reported cost is wrong" ELSE IF o.feas # Bool(AllOK(f, rs)) THEN "reported feasibility is wrong" ELSE "ok"
  ELSE IF o.f > Measure(f, rs) \/ o.f < 0 THEN "post-optimisation made it worse"
  ELSE IF AllOK(f, rs) /\ o.feas # 1 THEN "reported feasibility is wrong"
  ELSE IF ~(CoverOK(f, rs) /\ AllCapOK(f, rs)) /\ o.feas # 0 THEN "reported feasibility is wrong"
  ELSE IF w.k = "intls" /\ o.f # Measure(f, rs) THEN "reported cost is wrong"
  ELSE "ok"
RowFull(kk, o) ==
  LET f == F(kk)  w == Out(kk)  rs == Routes(w.sol)  ps == Routes(o.p.sol) IN
  IF o.alg # Algos[A(kk)].name \/ o.file # f.name THEN "results are not in order, one for each attempt"
  ELSE IF ~HasPlan(w) THEN IF o.got = 0 THEN "ok" ELSE "failed attempt reports a result"
  ELSE IF o.got # 1 THEN "solution is not reported exactly once"
  ELSE LET c == Printed(f, o.p) IN
  IF c # "ok" THEN c
  ELSE IF ~VrphOK(o.p) THEN "VRPH form is another solution"
  ELSE IF r.vrph /\ o.p.vrph = <<>> THEN "VRPH form is missing"
  ELSE IF r.routes /\ o.p.rows = <<>> /\ ps # <<>> THEN "route table is missing"
  ELSE IF r.ls = <<>> \/ w.k = "intls" THEN IF SamePlan(ps, rs) THEN "ok" ELSE "printed solution is not the heuristic's"
  ELSE IF ~SameGroups(ps, rs) THEN "post-optimisation changed the routes' customers"
  ELSE IF Measure(f, ps) > Measure(f, rs) THEN "post-optimisation made it worse"
  ELSE IF "2opt" \in Range(r.ls) /\ \E i \in DOMAIN ps : ~TwoOptimal(ByLength(f), ps[i]) THEN "post-optimisation left an improving 2-opt move"
  ELSE IF o.pct >= 0 /\ LET a == Measure(f, rs)  b == Measure(f, ps)  e == o.pct*a - 10000*(a-b) IN 2*e > a+2 \/ 2*e < -(a+2) THEN "reported improvement is wrong"
  ELSE "ok"
\* the collected results
Rows4(fi) == {kk \in 1..NMade : Attempt(Len(Algos), kk)[1] = fi}
ByFileName == {fi \in DOMAIN r.files : Rows4(fi) # {}}
LastPrinted(kk) == Routes(r.obs[kk].p.sol)
Value(kk) == IF ~HasPlan(Out(kk)) THEN -1 ELSE Measure(F(kk), LastPrinted(kk))
TableOf(fi) == CHOOSE t \in DOMAIN r.table : r.table[t].file = r.files[fi].name
Table ==
  IF ~r.full \/ ~(Cardinality(ByFileName) > 1 \/ Len(Algos) > 1) THEN IF r.table = <<>> THEN "ok" ELSE "results are collected for a single attempt"
  ELSE IF Len(r.table) # Cardinality(ByFileName) \/ \E fi \in ByFileName : ~\E t \in DOMAIN r.table : r.table[t].file = r.files[fi].name
       THEN "collected results do not list each file once"
  ELSE IF \E fi \in ByFileName : LET t == r.table[TableOf(fi)]  good == {kk \in Rows4(fi) : HasPlan(Out(kk))} IN
            good # {} /\ LET b == Min({Len(LastPrinted(kk)) : kk \in good}) IN
               \/ t.N # r.files[fi].n \/ t.K # b \/ t.C # r.files[fi].C \/ t.L # r.files[fi].L \/ t.st # r.files[fi].st
               \/ (r.files[fi].C # 0 /\ LET tot == LoadOf(ByCost(r.files[fi]), [c \in 1..r.files[fi].n |-> c])  cap == r.files[fi].C*b
                                        IN 2*(t.tight*cap - 1000*tot) > cap+1 \/ 2*(t.tight*cap - 1000*tot) < -(cap+1))
       THEN "collected results describe the problem wrongly"
  ELSE IF \E fi \in ByFileName, a \in DOMAIN Algos :
            LET t == r.table[TableOf(fi)]  kk == (fi-1)*Len(Algos)+a
                cell == {x \in DOMAIN t.cells : t.cells[x].alg = Algos[a].name}
            IN IF kk <= NMade THEN Cardinality(cell) # 1 \/ \E x \in cell : t.cells[x].v # Value(kk)
               ELSE \E x \in cell : t.cells[x].v >= 0
       THEN "collected results differ from the attempts' results"
  ELSE "ok"
RunEnd ==
  IF Len(r.obs) > NMade THEN "results are reported after the end"
  ELSE IF ~r.sim /\ Len(r.calls) # NMade THEN "heuristics are not run once for each attempt"
  ELSE IF r.sim /\ r.calls # <<>> THEN "simulation runs a heuristic"
  ELSE Table
WantAlgos == SelectSeq(SelectsAll(r.typed), LAMBDA a: ~\E x \in Range(r.forbid) : Selects(x) = <<a>>)
RunStart ==
  IF r.failed # "" THEN "the command line fails"
  ELSE IF [x \in DOMAIN Algos |-> Algos[x].ab] # WantAlgos THEN "selected heuristics are wrong"
  ELSE IF \E x, y \in DOMAIN Algos : x # y /\ Algos[x].name = Algos[y].name THEN "two heuristics have one name"
  ELSE "ok"
\* one step of the machine, observed
RunStep(kk) ==
  IF kk > Len(r.obs) THEN "result is missing"
  ELSE IF ~r.sim /\ kk > Len(r.calls) THEN "heuristics are not run once for each attempt"
  ELSE IF ~r.sim /\ r.calls[kk].ab # Algos[A(kk)].ab THEN "heuristics are not run in order"
  ELSE IF ~r.sim /\ ~ArgsOK(F(kk), r.calls[kk]) THEN "heuristic is given another problem or other options"
  ELSE IF r.full THEN RowFull(kk, r.obs[kk]) ELSE RowMin(kk, r.obs[kk])

\* --------------------------------------------------------------- "solo"
\* out: per file the outcomes of the repeats; obs: per file [called, sol, p]; end of all: raised
SoloOuts(fi) == r.out[fi]
SoloN(fi) == Made(SoloOuts(fi))
SoloBest(fi) ==
  LET good == SelectSeq([x \in 1..SoloN(fi) |-> x], LAMBDA x: HasPlan(SoloOuts(fi)[x]))
      obj(x) == LET rs == Routes(SoloOuts(fi)[x].sol) IN <<Len(rs), PlanCost(ByCost(r.files[fi]), rs)>>
  IN BestOf(r.mk, [x \in DOMAIN good |-> obj(good[x])])
SoloStops(fi) == \E x \in DOMAIN SoloOuts(fi) : Interrupts(SoloOuts(fi)[x])
SoloFiles == IF \E fi \in DOMAIN r.files : SoloStops(fi) THEN CHOOSE fi \in DOMAIN r.files : SoloStops(fi) /\ \A g \in 1..(fi-1) : ~SoloStops(g) ELSE Len(r.files)
SoloFile(fi) ==
  LET o == r.obs[fi]  best == SoloBest(fi)  f == r.files[fi] IN
  IF o.file # f.name THEN "files are not solved in order"
  ELSE IF Len(o.calls) # SoloN(fi) THEN "heuristic is not run as often as asked"
  ELSE IF \E x \in DOMAIN o.calls : ~ArgsOK(f, o.calls[x]) THEN "heuristic is given another problem or other options"
  ELSE IF best = None THEN IF o.got = 0 THEN "ok" ELSE "failed attempts report a solution"
  ELSE IF o.got # 1 THEN "solution is not reported exactly once"
  ELSE LET c == Printed(f, o.p)  ps == Routes(o.p.sol) IN
  IF c # "ok" THEN c
  ELSE IF <<Len(ps), PlanCost(ByCost(f), ps)>> # best THEN "reported solution is not the best of the repeats"
  ELSE IF ~\E x \in 1..SoloN(fi) : HasPlan(SoloOuts(fi)[x]) /\ SamePlan(Routes(SoloOuts(fi)[x].sol), ps) THEN "printed solution is not the heuristic's"
  ELSE "ok"
Returned(fi) ==
  LET best == SoloBest(fi)  q == r.ret  f == r.files[fi] IN
  IF q.none THEN "ok"
  ELSE IF best = None THEN IF q.sol = <<>> /\ q.len = -1 /\ q.cost = -1 THEN "ok" ELSE "a solution is returned without any"
  ELSE LET rs == Routes(q.sol) IN
       IF <<Len(rs), PlanCost(ByCost(f), rs)>> # best THEN "returned solution is not the best of the repeats"
       ELSE IF q.len # PlanCost(ByLength(f), rs) \/ q.cost # PlanCost(ByCost(f), rs) THEN "returned figures are wrong" ELSE "ok"
Solo ==
  LET m == SoloFiles IN
  IF r.failed # "" THEN "solving fails"
  ELSE IF r.raised # \E fi \in DOMAIN r.files : SoloStops(fi) THEN "interrupt is not passed on"
  ELSE IF Len(r.obs) # m THEN "files are not solved once each"
  ELSE IF \E fi \in 1..m : SoloFile(fi) # "ok" THEN SoloFile(CHOOSE fi \in 1..m : SoloFile(fi) # "ok")
  ELSE Returned(1)

\* --------------------------------------------------------------- "files"
\* given: sequence of [k, at, list]: k = "dir" (at), "file" (list: the file if it is of a known
\* type), "list" (list: its existing entries), "none"; subs: the directories below the given ones
FilesById(S) == [x \in DOMAIN S |-> S[x].id]
Plain == FoldLeft(LAMBDA acc, g: acc \o (IF g.k = "dir" THEN FilesById(OfDir(Range(r.tree), g.at)) ELSE g.list), <<>>, r.given)
FileOf(id) == r.tree[CHOOSE x \in DOMAIN r.tree : r.tree[x].id = id]
Below == {x \in DOMAIN r.tree : r.tree[x].dir \in Range(r.subs) /\ r.tree[x].ext \in {"vrp", "tsp", "pickle"}}
Files ==
  IF r.failed # "" THEN "listing problem files fails"
  ELSE IF ~r.recursive THEN IF r.found = Plain THEN "ok" ELSE "problem files found are not those of the paths, in order"
  ELSE LET p == Plain  rest == IF Len(r.found) < Len(p) THEN <<>> ELSE SubSeq(r.found, Len(p)+1, Len(r.found)) IN
       IF Len(r.found) < Len(p) \/ SubSeq(r.found, 1, Len(p)) # p THEN "problem files found are not those of the paths, in order"
       ELSE IF \E x, y \in DOMAIN rest : x # y /\ rest[x] = rest[y] THEN "a problem file is found more than once"
       ELSE IF Range(rest) # {r.tree[x].id : x \in Below} THEN "problem files of nested folders are missed"
       ELSE IF \E dn \in Range(r.subs) : LET here == SelectSeq(rest, LAMBDA id: FileOf(id).dir = dn)
                                          IN here # FilesById(OfDir(Range(r.tree), dn)) THEN "problem files are not in natural order"
       ELSE IF r.after # r.before THEN "the caller's list of paths is changed"
       ELSE "ok"
Names == IF r.got = SelectsAll(r.typed) THEN "ok" ELSE "selected heuristics are wrong"

\* --------------------------------------------------------------- machine
Fin(c) == IF c = "ok" THEN PrintT(<<"MATCH", tid>>) ELSE PrintT(<<"BAD", tid, c>>)
Init == tid \in 1..Len(Trace) /\ k = 0 /\ v = ""
Start == /\ k = 0 /\ v = "" /\ UNCHANGED tid
         /\ IF r.what # "run"
            THEN LET c == CASE r.what = "solo" -> Solo [] r.what = "files" -> Files [] r.what = "names" -> Names
                 IN v' = c /\ k' = 1 /\ Fin(c)
            ELSE LET c == RunStart IN k' = 1 /\ (IF c = "ok" THEN v' = "" ELSE v' = c /\ Fin(c))
Step == /\ k >= 1 /\ v = "" /\ UNCHANGED tid
        /\ IF k > NMade THEN LET c == RunEnd IN v' = c /\ k' = k /\ Fin(c)
           ELSE LET c == RunStep(k) IN k' = k+1 /\ (IF c = "ok" THEN v' = "" ELSE v' = c /\ Fin(c))
Next == Start \/ Step
=============================================================================
