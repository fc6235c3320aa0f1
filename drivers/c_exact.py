# -*- coding: utf-8 -*-
"""C31-C33: methods built on exact subproblems (PartTrace), C34: methods that finish with a local search (FinishTrace)."""
import itertools
from c_moves import *
from c_build import build_inst
from c_plans import hops
from heur import algo, run_heur, outcome, preload

def exact_tsp(D, nodes):
    """a shortest closed tour from the depot through the nodes (dynamic programming)"""
    ns = [int(x) for x in nodes if x != 0]
    if not ns: return [0, 0], 0.0
    f = {(1 << k, k): (D[0, a], (a,)) for k, a in enumerate(ns)}
    for _ in ns[1:]:
        g = {}
        for (S, j), (c, p) in f.items():
            for k, a in enumerate(ns):
                if S >> k & 1: continue
                q = (c+D[ns[j], a], p+(a,)); key = (S | 1 << k, k)
                if key not in g or q[0] < g[key][0]: g[key] = q
        f = g
    c, p = min((c+D[ns[j], 0], p) for (S, j), (c, p) in f.items())
    return [0]+list(p)+[0], c

def at_most(I, r, k):
    """unit demands, at most k customers per route"""
    I.di = [0]+[1]*I.n; I.Ci = k; I.kind += "/%d-per-route" % k
    finish_inst(I, I.s, 1, r)
    return I

def fresh(r, n, k, kinds=("euc", "man", "dyadic", "metric", "explicit"), **kw):
    I = gen_inst(r, n=n, kinds=list(kinds), grid=r.choice([2, 3, 6, 20, 60, 100]), seed=k, dem=r.choice(["small", "unit", "mixed", "big", "zeros", "dyadic"]), **kw)
    return I

def base_rec(j, kind, v, **kw):
    out, sol = outcome(kind, v)
    q = dict(i=j["idx"]+1, out=out, sol=sol, msg=v if kind == "exc" else "", what=j["what"], key=j["what"])
    q.update(dict(kind=j["kind"], K=0, mk=False, W=0, how="", petals=[], ord=[], pts=[], bound=-1)); q.update(kw)
    return q

# ---------------------------------------------------------------- C31
def one31(j):
    from verypy.classic_heuristics.matchingvrp import mbsa_init
    I = j["I"]; a = (I.D, I.d, I.C, I.L, j["mk"])
    if j["what"] == "registered": kind, v = call(algo("mbsa")[3], list(I.pts), I.D, I.d, I.C, I.L, None, I.ewt, False, j["mk"], cpu=30)
    elif j["what"] == "default": kind, v = call(mbsa_init, *a, cpu=30, W=j["W"]/float(I.s))
    else: kind, v = call(mbsa_init, *a, cpu=30, W=j["W"]/float(I.s), solve_tsp=exact_tsp)
    return base_rec(j, kind, v, W=j["W"], mk=j["mk"])

def jobs31(ctx):
    r = ctx.rng("match"); insts = []; jobs = []
    for k in range(ctx.n(1000, 8000)):
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 5, 6, 6, 6] + ([7] if k % 4 == 0 else []))
        I = fresh(r, n, k); what = r.choice(["exact", "exact", "default", "registered"])
        if what != "exact": at_most(I, r, r.choice([2, 3, 3]))
        insts.append(I); mk = r.random() < .35
        W = 0 if what == "registered" else r.choice([0, 0, -1000*I.s, -5*I.s])
        jobs.append(dict(I=I, idx=len(insts)-1, what=what, kind="match", mk=mk, W=W))
    return insts, jobs, one31

# ---------------------------------------------------------------- C32
def one32(j):
    from verypy.classic_heuristics import petalvrp as P
    I = j["I"]; kw = dict(K=j["K"] or None, minimize_K=j["mk"], relaxe_SCP_solutions=j["relax"])
    if j["how"] == "sweep":
        if j["what"] == "registered": kind, v = call(algo("ptl")[3], list(I.pts), I.D, I.d, I.C, I.L, None, I.ewt, False, j["mk"], cpu=60)
        else: kind, v = call(P.petal_init, list(I.pts), I.D, I.d, I.C, I.L, cpu=60, **kw)
        return base_rec(j, kind, v, K=j["K"], mk=j["mk"], how="sweep", ord=j["ord"], pts=[[int(a), int(b)] for a, b in I.pts])
    sets = [P.PetalSet([], [], []) for _ in range(3)]
    for p, w in zip(j["petals"], j["where"]):
        rt = [0]+p+[0]
        sets[w].nodes.append(set(rt)); sets[w].routes.append(rt); sets[w].costs.append(float(sum(I.D[rt[x], rt[x+1]] for x in range(len(rt)-1))))
    kind, v = call(P.petal_init, list(I.pts), I.D, I.d, I.C, I.L, cpu=60, predefined_petals_generator=lambda: sets, **kw)
    return base_rec(j, kind, v, K=j["K"], mk=j["mk"], how="given", petals=j["petals"])

def angle_order(pts):
    """customers by angle around the depot, or None if two of them share an angle"""
    dx = [(p[0]-pts[0][0], p[1]-pts[0][1]) for p in pts[1:]]
    if any(x != int(x) or y != int(y) for x, y in dx) or (0, 0) in dx: return None
    o = sorted(range(len(dx)), key=lambda k: math.atan2(dx[k][1], dx[k][0]))
    for a in range(len(o)):
        for b in range(a):
            p, q = dx[o[a]], dx[o[b]]
            if p[0]*q[1] == p[1]*q[0] and p[0]*q[0]+p[1]*q[1] > 0: return None
    return [k+1 for k in o]

def ok_route(I, p):
    return (not I.Ci or sum(I.di[c] for c in p) <= I.Ci) and (not I.Li or sum(I.Di[a][b] for a, b in zip([0]+p, p+[0])) <= I.Li)

def jobs32(ctx):
    r = ctx.rng("petal"); insts = []; jobs = []
    for k in range(ctx.n(1000, 8000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 6, 7])
        if r.random() < .4:
            I = fresh(r, n, k, kinds=("euc", "man", "dyadic"), coords=True, L="none", C="tight")
            I.pts = [tuple(float(int(x)) for x in p) for p in I.pts]
            o = angle_order(I.pts)
            if o is None: continue
            at_most(I, r, r.choice([2, 3, 3])); insts.append(I)
            if r.random() < .4 and n > 1:    # a limit, often exactly the length of some run of neighbours
                from c_build import metric_closure
                I.Di = metric_closure([list(x) for x in I.Di]); a, m = r.randrange(n), r.randint(1, min(3, n)); t = [o[(a+x) % n] for x in range(m)]
                I.Li = max(2*max(I.Di[0]), min(I.Di[0][q[0]]+sum(I.Di[x][y] for x, y in zip(q, q[1:]))+I.Di[q[-1]][0] for q in itertools.permutations(t))+r.choice([0, 0, 0, 1]))
                finish_inst(I, I.s, 1, r)
            what = r.choice(["sweep", "registered"])
            K = r.choice([0, 0, -(-n//I.Ci), r.randint(1, n)]) if what == "sweep" else 0
            jobs.append(dict(I=I, idx=len(insts)-1, what=what, kind="petal", how="sweep", ord=o, K=K, mk=r.random() < .3 and not K, relax=r.random() < .5))
            continue
        I = fresh(r, n, k, L=r.choice(["none", "none", "any"])); insts.append(I)
        if k % 3 == 0 and I.Ci:              # loads that fill a whole number of vehicles
            I.di = [0]+[r.choice([1, 2]) for _ in range(n)]; t = sum(I.di); K = r.randint(1, n); I.Ci = max(2, -(-t//K)); finish_inst(I, I.s, 1, r)
        ps = set()
        cs = list(range(1, n+1))
        for _ in range(3 if r.random() < .7 else 1):     # some plans and loose routes
            r.shuffle(cs); rest = list(cs)
            while rest:
                m = len(rest)
                while m > 1 and (not ok_route(I, rest[:m]) or r.random() < .3): m -= 1
                ps.add(tuple(rest[:m])); rest = rest[m:]
        for _ in range(r.randint(0, 25)):
            p = r.sample(range(1, n+1), r.randint(1, n))
            if ok_route(I, p): ps.add(tuple(p))
        full = k % 4 == 1 and I.Ci           # all small routes, loads for a whole number of vehicles, vehicles minimised
        if full:
            at_most(I, r, r.choice([2, 3])); ps = set(itertools.chain.from_iterable(itertools.combinations(range(1, n+1), m) for m in range(1, I.Ci+1)))
            ps = {p for p in ps if ok_route(I, list(p))}
        ps = [list(p) for p in sorted(ps)]; r.shuffle(ps)
        load = [sum(I.di[c] for c in p) for p in ps]
        how = r.random()
        where = [(0 if I.Ci and x >= .75*I.Ci else r.choice([1, 2])) if how < .6 else 2 if how < .7 else 0 if how < .8 else r.randrange(3) for x in load]
        K = 0 if full and r.random() < .8 else r.choice([0, 0, 0, r.randint(1, n)])
        jobs.append(dict(I=I, idx=len(insts)-1, what="given", kind="petal", how="given", petals=ps, where=where, K=K, mk=(full or r.random() < .4) and not K, relax=r.random() < .4))
    return insts, jobs, one32

# ---------------------------------------------------------------- C33
def one33(j):
    from verypy.classic_heuristics.gapvrp import gap_init
    I = j["I"]; bound = -1
    def go(mk):
        if j["what"] == "registered": return call(algo("gap")[3], list(I.pts), I.D, I.d, I.C, I.L, None, I.ewt, j["first"], mk, cpu=60)
        return call(gap_init, list(I.pts), I.D, I.d, I.C, I.L, cpu=60, K=j["K"] or None, minimize_K=mk, find_optimal_seeds=not j["first"], seed_method=j["seeds"], seed_edge_weight_type=I.ewt)
    kind, v = go(j["mk"])
    if not j["mk"] and not j["K"] and not I.L:
        k2, v2 = go(True)
        if k2 == "ret" and v2 is not None: bound = sum(I.Di[int(a)][int(b)] for a, b in zip(v2, v2[1:]))
    return base_rec(j, kind, v, K=j["K"], mk=j["mk"], bound=bound)

def jobs33(ctx):
    r = ctx.rng("gap"); insts = []; jobs = []
    for k in range(ctx.n(600, 4000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        I = fresh(r, n, k, kinds=("euc", "man", "dyadic"), coords=True, C=r.choice(["tight", "yes", "tight"]), L=r.choice(["none", "none", "none", "any"])); insts.append(I)
        if r.random() < .5:                  # loads that are hard to pack
            I.di = [0]+[r.choice([3, 4, 5, 6, 7]) for _ in range(n)]; I.Ci = r.choice([10, 12]); finish_inst(I, I.s, 1, r)
        what = r.choice(["registered", "direct", "direct"])
        jobs.append(dict(I=I, idx=len(insts)-1, what=what, kind="gap", K=r.choice([0, 0, r.randint(1, n)]) if what == "direct" else 0, mk=r.random() < .6,
                         first=r.random() < .5, seeds=r.choice(["cones", "kmeans", "large_demands"])))
    return insts, jobs, one33

# ---------------------------------------------------------------- C34
FINISH = {"ps2o": ["2opt"], "ty": ["2opt", "3opt"], "cmt": ["2opt", "3opt"], "rfcs": ["2opt", "3opt"], "gm": ["2opt", "3opt"], "gps": ["2opt", "3opt"],
          "mbsa": ["2opt", "3opt"], "gap": ["2opt", "3opt"], "mj": ["2opt", "1point"], "lr3o": ["plan"]}
def one34(j):
    q = run_heur(j["what"], j["I"], j["single"], j["mk"])
    return dict(i=j["idx"]+1, out="refused" if q["mayrefuse"] and q["out"] != "plan" else q["out"], sol=q["sol"], msg=q["msg"], what=j["what"], key=j["what"], mk=j["mk"], ops=FINISH[j["what"]])

def wide(I, r):
    """distances over a wide range without the triangle inequality"""
    w = r.choice([[1, 1, 2, 5, 9, 30], [1, 5, 30], list(range(30))]); n = I.n
    I.Di = [[0]*(n+1) for _ in range(n+1)]; I.Li = 0
    for a in range(n+1):
        for b in range(a): I.Di[a][b] = I.Di[b][a] = r.choice(w)*I.s
    I.ewt = "EXPLICIT"; I.kind = "wide/"+I.kind; finish_inst(I, I.s, sd_of(I), r)

def jobs34(ctx):
    r = ctx.rng("finish"); insts = []; jobs = []
    for k in range(ctx.n(320, 2500)):
        for ab in FINISH:
            n = r.choice([3, 4, 5, 6, 7, 8] if ab != "lr3o" else [3, 4, 5, 6, 6, 7])
            I = build_inst(r, n, k); insts.append(I)
            if k % 4 == 2: I.Li = 0; hops(I, r)
            elif k % 4 == 3: wide(I, r)
            jobs.append(dict(I=I, idx=len(insts)-1, what=ab, single=r.random() < .3, mk=r.random() < .3 and ab not in ("lr3o", "ty")))
    for k in range(ctx.n(900, 8000)):      # the insertion with its own search for few and many vehicles
        n = r.choice([4, 5, 6, 7, 8]); I = build_inst(r, n, k); wide(I, r)
        if I.Ci and r.random() < .5: I.Ci = sum(I.di)+r.choice([0, 1, 3]); finish_inst(I, I.s, sd_of(I), r)
        insts.append(I); jobs.append(dict(I=I, idx=len(insts)-1, what="mj", single=r.random() < .2, mk=r.random() < .5))
    return insts, jobs, one34

TABLE = dict(C31=jobs31, C32=jobs32, C33=jobs33, C34=jobs34)
_fn = [None]
def many(js): return [_fn[0](j) for j in js]

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "PartitionMC", "PartitionMC.cfg" if ctx.tier == "quick" else "PartitionMC4.cfg") if prop in ("C32", "C33") else None
    if prop == "C31":
        mc(ctx, "MatchingMC", "MatchingMC.cfg")
        if ctx.tier != "quick": mc(ctx, "MatchingMC", "MatchingMC4.cfg")
    with quiet(): preload(["mbsa", "ptl", "gap"] if prop != "C34" else list(FINISH))
    insts, jobs, fn = TABLE[prop](ctx); _fn[0] = fn
    recs = [q for part in pmap(many, chunks(jobs, 12)) for q in part]
    ctx.log("ran %d calls" % len(recs))
    light = [{k: q[k] for k in q if k not in ("msg", "key", "what")} for q in recs]
    res = tlc(ctx, "FinishTrace" if prop == "C34" else "PartTrace", files=dict(VINST=[I.tla() for I in insts], VTRACE=light), expect_states=2*len(light))
    bad = sorted(set(res["bad"]))
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs:
        d = kinds.setdefault(q["what"], {}); d[q["out"]] = d.get(q["out"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d plans, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances, exact arithmetic" + (", triangle inequality where a route cost limit is set" if prop == "C34" else ""),
                            "the integer programs are solved to the solver's default relative accuracy of 1e-4; ties may be broken any way"])
