# -*- coding: utf-8 -*-
"""C38: the assignment heuristic gives the customers to the seeds at least total detour (Gap)."""
import math
from c_build import *
from heur import outcome, preload
from vlib import _np

def dist(p, q, how):
    dx, dy = abs(p[0]-q[0]), abs(p[1]-q[1])
    if how == "MAN_2D": return dx+dy
    x = math.hypot(dx, dy)
    return int(math.ceil(x)) if how == "CEIL_2D" else int(math.floor(x)) if how == "FLOOR_2D" else int(round(x)) if how == "EUC_2D" else int(max(dx, dy))

def seeds_of(I, j, t=0):
    """the seed points the method is documented to use"""
    if j["method"] == "kmeans":
        from sklearn.cluster import KMeans
        with quiet(): return KMeans(n_clusters=j["K"], random_state=t).fit(I.pts[1:]).cluster_centers_.tolist()
    return [I.pts[c] for c in range(1, I.n+1) if 2*I.di[c] > I.Ci]

def one(j):
    from verypy.classic_heuristics.gapvrp import gap_init
    I = j["I"]
    S = [[[int(dist(p, q, I.ewt)) for q in I.pts] for p in seeds_of(I, j, t)] for t in range(I.n+1 if j["trials"] else 1)]
    ewt = I.ewt if not j["explicit"] else "EXPLICIT"
    def go(trials):
        return call(gap_init, list(I.pts), I.D, I.d, I.C, I.L, cpu=60, K=j["K"], minimize_K=j["mk"], find_optimal_seeds=trials, seed_method=j["method"], seed_edge_weight_type=ewt)
    kind, v = go(j["trials"]); bound = []
    if j["trials"]:
        k1, v1 = go(False); v1 = plan(v1) if k1 == "ret" and v1 is not None else None
        if v1: bound = [sum(x == 0 for x in v1)-1, sum(I.Di[a][b] for a, b in zip(v1, v1[1:]))]
    out, sol = outcome(kind, v)
    if out == "error" and "size-limited license" in v: out = "licence"
    return dict(i=j["idx"]+1, S=S, out=out, sol=sol if out == "plan" else [], msg=v if kind == "exc" else "", what=j["method"], key=j["method"]+("/trials" if j["trials"] else ""), mk=j["mk"], bound=bound)
def many(js): return [one(j) for j in js]

def jobs(ctx):
    r = ctx.rng("gap"); insts = []; jobs = []
    for k in range(ctx.n(2200, 14000)):
        method = r.choice(["kmeans", "large_demands"]); n = r.choice([2, 3, 4, 5, 5, 6, 6, 7, 8])
        I = gen_inst(r, n=n, kinds=["euc"], coords=True, C="none", L="none", grid=r.choice([6, 20, 60, 100]), seed=k, dem=r.choice(["small", "unit", "mixed", "dyadic", "zeros", "big"]))
        I.ewt = "EUC_2D" if method == "kmeans" else r.choice(["EUC_2D", "CEIL_2D", "FLOOR_2D", "MAN_2D", "MAN_2D"])
        I.Di = [[int(dist(p, q, I.ewt)) for q in I.pts] for p in I.pts]; sd = sd_of(I)
        K = r.choice([1, 2, 2, 3, 3, 4])
        while K > n or K**n > 5000: K -= 1
        tight = r.random() < .7
        if method == "large_demands":        # K customers take more than half a vehicle
            big = set(r.sample(range(1, n+1), K)); C = r.choice([10, 12, 20])
            I.di = [0]+[r.randint(C//2+1, C) if c in big else r.randint(0, min(C//2, 4)) for c in range(1, n+1)]; sd = 1; I.Ci = C
        else:
            I.Ci = max(max(I.di), -(-sum(I.di)//K)+r.choice([0, 0, 1, 2, 4])*sd) if tight else 2*sum(I.di)
        if r.random() < .15: I.Li = (n+1)*max(max(x) for x in I.Di)*r.choice([20, 50])
        finish_inst(I, 1, sd, r)
        if len(set(I.pts[1:])) < K: continue
        insts.append(I)
        jobs.append(dict(I=I, idx=len(insts)-1, method=method, K=K, mk=r.random() < .5, explicit=I.ewt == "EUC_2D" and I.D.dtype.kind == "i" and r.random() < .3, trials=method == "kmeans" and r.random() < .25))
    return insts, jobs

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "GapMC", "GapMC.cfg" if ctx.tier == "quick" else "GapMC_big.cfg")
    with quiet(): preload(["gap"])
    insts, js = jobs(ctx)
    recs = [q for part in pmap(many, chunks(js, 20)) for q in part]
    lic = [q for q in recs if q["out"] == "licence"]
    recs = [q for q in recs if q["out"] != "licence"]
    ctx.log("ran %d assignments (%d without licence)" % (len(recs), len(lic)))
    if len(recs) < len(lic): raise TLCError("the solver refuses")
    light = [{k: q[k] for k in ("i", "S", "out", "sol", "mk", "bound")} for q in recs]
    res = tlc(ctx, "GapTrace", files={"VINST": [I.tla() for I in insts], "VTRACE": light}, expect_states=2*len(recs))
    bad = sorted(set(res["bad"]))
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["key"]] = kinds.get(q["key"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["plans"] = sum(q["out"] == "plan" for q in recs)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d assignments, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["seeds known: k-means centres (scikit-learn, random state 0) and customers above half a vehicle", "integer detours, far below the solver's relative tolerance"])
