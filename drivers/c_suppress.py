# -*- coding: utf-8 -*-
"""C36: the perturbed savings heuristic (Holmes and Parker), explained by the machine of Suppress."""
from c_build import *

def distinct(I):
    ds = [I.Di[a][b] for a in range(1, I.n+1) for b in range(a+1, I.n+1)]
    return len(set(ds)) == len(ds)

def one36(j):
    from verypy.classic_heuristics.suppression_savings import suppression_savings_init as f
    I, mk, lp = j["I"], j["mk"], j["lp"]
    if j["way"]: kind, v = reg("ims", I, j["single"], mk)
    else: kind, v = call(f, I.D, I.d, I.C, I.L, mk, **({} if lp == 0 and j["single"] else dict(Lprime=lp or "auto")), cpu=30)
    return rec(j, kind, v, I, mk=mk, lp=lp)
def many36(js): return [one36(j) for j in js]

def jobs36(ctx):
    r = ctx.rng("sup"); insts = []; jobs = []
    for k in range(ctx.n(2600, 25000)):
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9]); I = None
        for t in range(6):
            J = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "explicit", "metric"], grid=r.choice([20, 60, 100, 300]), seed=k*7+t, dem=r.choice(["small", "unit", "zeros", "mixed", "big"]))
            if n > 2 and r.random() < .2:            # small different distances between customers, some of them longer than the way over the depot
                ps = r.sample(range(1, n*(n-1)//2+8), n*(n-1)//2); it = iter(ps)
                D = [list(x) for x in J.Di]; top = max(ps)
                for a in range(1, n+1):
                    D[0][a] = D[a][0] = sd_of(J)*r.randint(1, top)
                    for b in range(a+1, n+1): D[a][b] = D[b][a] = sd_of(J)*next(it)
                J.Di = D; J.Li = 0
            if J.Li: J.Di = metric_closure([list(x) for x in J.Di]); J.Li = max(J.Li, 2*max(J.Di[0]))
            if J.Ci and r.random() < .6 and n > 2: J.Ci = max(max(J.di), -(-sum(J.di)*r.choice([10, 11, 13])//(10*r.choice([2, 2, 3]))))
            finish_inst(J, J.s, sd_of(J), r)
            if distinct(J): I = J; break
        if I is None: continue
        insts.append(I)
        for mk in ((False, True) if r.random() < .3 else (r.random() < .3,)):
            lp = r.choice([0, 0, 1, 2, 3, 4, 6, 9]); way = lp == 0 and r.random() < .6
            jobs.append(dict(I=I, idx=len(insts)-1, mk=mk, lp=lp, way=way, single=r.random() < .5, what="registered" if way else "automatic" if lp == 0 else "given rounds"))
    return insts, jobs

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "SuppressMC", "SuppressMC.cfg")
    if ctx.tier != "quick": mc(ctx, "SuppressMC", "SuppressMC_big.cfg")
    with quiet(): preload(["ims"])
    insts, js = jobs36(ctx)
    recs = [q for part in pmap(many36, chunks(js, 40)) for q in part]
    ctx.log("ran %d searches" % len(recs))
    light = [{k: q[k] for k in ("i", "out", "sol", "mk", "lp")} for q in recs]
    res = tlc(ctx, "SuppressTrace", files={"VINST": [I.tla() for I in insts], "VTRACE": light})
    bad = sorted(set(res["bad"]))
    if not bad and res["states"] < 3*len(recs): raise TLCError("states: %d" % res["states"])
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["what"]] = kinds.get(q["what"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d plans, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances, all different between customers (then the order of every list of savings is determined); triangle inequality where a route cost limit is set"])
