# -*- coding: utf-8 -*-
"""C01 / C02 / C03: plans returned by every registered heuristic, replayed on Routing."""
from heur import *
from c_moves import sd_of

def gen(ctx, mode):
    r = ctx.rng("inst"); out = []
    nsmall, nmid, nbig = ctx.n((1000, 320, 40), (4500, 1300, 160))
    for k in range(nsmall+nmid+nbig):
        kw = {}
        if mode == "capacity": kw["C"] = r.choice(["yes", "tight", "tight"])
        if mode == "cost": kw["L"] = r.choice(["yes", "tight"]); kw["C"] = r.choice(["none", "any"])
        kinds = None
        if r.random() < .15: kinds = ["explicit"]
        if k < nsmall: I = gen_inst(r, nmax=8, kinds=kinds, seed=k, **kw)
        elif k < nsmall+nmid: I = gen_inst(r, n=r.randint(9, 16), kinds=kinds, seed=k, **kw)
        else: I = gen_inst(r, n=r.randint(17, 60), kinds=kinds, seed=k, grid=r.choice([20, 100]), **kw)
        if k % 25 == 7: degenerate(I, r)
        elif k % 10 == 3: hops(I, r)
        out.append(I)
    return out

def degenerate(I, r):
    """nobody has a demand, or everything is in one place"""
    if I.Ci and r.random() < .6: I.di = [0]*(I.n+1); I.kind = "no-demand/"+I.kind
    else:
        I.Di = [[0]*(I.n+1) for _ in I.Di]; I.pts = [I.pts[0]]*(I.n+1); I.kind = "one-place/"+I.kind
    finish_inst(I, I.s, sd_of(I), r)

def hops(I, r):
    """small distances without the triangle inequality"""
    w = r.choice([[0, 1], [0, 0, 1, 2], [0, 0, 9], [1, 1, 9], [0, 1, 2, 9]]); n = I.n
    I.Di = [[0]*(n+1) for _ in range(n+1)]
    for a in range(n+1):
        for b in range(a): I.Di[a][b] = I.Di[b][a] = r.choice(w)*I.s
    if I.Li: I.Li = max(1, 2*max(I.Di[0]))+r.choice([0, 0, I.s, 9*I.s])
    I.ewt = "EXPLICIT"; I.kind = "hops/"+I.kind; finish_inst(I, I.s, sd_of(I), r)

def work(x):
    i, I, jobs = x
    res = []
    for ab, single, mk in jobs:
        q = run_heur(ab, I, single, mk)
        q["i"] = i+1
        q["key"] = "%s" % ab
        res.append(q)
    return res

def main(prop, mode):
    ctx = Ctx(prop)
    mc(ctx, "RoutingMC", "RoutingMC.cfg")
    names = preload(ALL)
    insts = gen(ctx, mode)
    r = ctx.rng("opts")
    work_items = []
    for i, I in enumerate(insts):
        jobs = []
        for ab in names:
            if not size_ok(ab, I.n): continue
            if ab == "ptl" and I.n > 8 and I.kind.startswith(("hops", "one-place")): continue    # slow: many plans cost the same
            if ab in GUR+SLOW and r.random() < .5: continue
            jobs.append((ab, r.random() < .4, r.random() < .35))
        r.shuffle(jobs)
        for k in range(0, len(jobs), 7):
            work_items.append((i, I, jobs[k:k+7]))
    recs = [q for part in pmap(work, work_items) for q in part]
    recs = drop_slow(ctx, recs)
    ctx.log("ran %d solver calls on %d instances" % (len(recs), len(insts)))
    by = {}
    for q in recs: by[q["out"]] = by.get(q["out"], 0)+1
    ctx.notes["outcomes"] = by
    ctx.notes["heuristics"] = sorted(set(q["alg"] for q in recs))
    tins = [I.tla() for I in insts]
    os.environ["VMODE"] = mode
    light = [dict(i=q["i"], out=q["out"], sol=q["sol"], mut=q["mut"], mayrefuse=q["mayrefuse"]) for q in recs]
    before = ctx.states
    bad = judge(ctx, "PlanTrace", light, files={"VINST": tins}, label=mode, states="any",
                key=None)
    # attach the full description to the rejected records
    ctx.violations = []; ctx.known = []
    for idx, clause in bad:
        q = dict(recs[idx]); q["inst"] = insts[q["i"]-1].brief()
        ctx.violation(clause, q, q["key"])
    if not bad:
        exp = sum(1+(len(q["sol"])+1 if q["out"] == "plan" else 1) for q in light)
        if ctx.states-before != exp: raise TLCError("replayed %d states, expected %d" % (ctx.states-before, exp))
    ctx.notes["stops_replayed"] = sum(len(q["sol"]) for q in light)
    for q in recs[:3]:
        ctx.sample(dict(inst=insts[q["i"]-1].brief(), alg=q["alg"], minimize_K=q["mk"], tour=q["sol"]))
    ctx.finish(assumptions=["symmetric distances, every customer individually feasible",
                            "demands and distances are integers or exact binary fractions"])
