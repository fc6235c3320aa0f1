# -*- coding: utf-8 -*-
"""C29: documented options of the heuristics, their plans replayed on Routing."""
from heur import *
from opts import variants
from c_plans import degenerate, hops
import random

def work(x):
    i, I, seed, draws, fams = x
    res = []; r = random.Random(seed)
    for _ in range(draws):
        for fam, txt, thunk, refuse in variants(r, I):
            if fam in fams and r.random() < fams[fam]: continue
            s = r.randrange(10**6); random.seed(s)
            kind, v = thunk()
            out, sol = outcome(kind, v)
            msg = v if kind == "exc" else ""
            lic = out == "error" and "size-limited license" in msg
            if lic: out = "refused"
            res.append(dict(i=i+1, alg=fam, opts=txt, out=out, sol=sol, mut="", msg=msg, key=fam, mayrefuse=bool(lic or refuse and out == "none")))
    return res

def main(prop):
    ctx = Ctx(prop)
    preload(ALL)
    r = ctx.rng("opts"); insts = []; items = []
    skip = {"gap": .6, "ptl": .4, "lr3o": .6, "gps": .4, "mbsa": .3, "gm": .3}
    for k in range(ctx.n(1500, 10000)):
        big = k % 5 == 0
        I = gen_inst(r, n=r.randint(9, 14) if big else r.choice([1, 2, 3, 4, 5, 6, 7, 8]), coords=True, seed=k,
                     C=r.choice(["any", "yes", "tight"]), L=r.choice(["none", "none", "any", "tight"]))
        if k % 20 == 7: degenerate(I, r)
        elif k % 12 == 3: hops(I, r)
        insts.append(I)
        items.append((k, I, r.randrange(10**9), 1 if big else 2, skip))
    recs = [q for part in pmap(work, items) for q in part]
    recs = drop_slow(ctx, recs)
    ctx.log("ran %d calls on %d instances" % (len(recs), len(insts)))
    by = {}
    for q in recs:
        b = by.setdefault(q["alg"], {}); b[q["out"]] = b.get(q["out"], 0)+1
    ctx.notes["outcomes"] = by
    ctx.notes["option_combinations"] = len(set((q["alg"], q["opts"]) for q in recs))
    os.environ["VMODE"] = "all"
    light = [dict(i=q["i"], out=q["out"], sol=q["sol"], mut=q["mut"], mayrefuse=q["mayrefuse"]) for q in recs]
    bad = judge(ctx, "PlanTrace", light, files={"VINST": [I.tla() for I in insts]}, label="options", states="any", key=None)
    ctx.violations = []; ctx.known = []
    for idx, clause in bad:
        q = dict(recs[idx]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(clause, q, q["key"])
    if not bad:
        exp = sum(1+(len(q["sol"])+1 if q["out"] == "plan" else 1) for q in light)
        if ctx.states != exp: raise TLCError("replayed %d states, expected %d" % (ctx.states, exp))
    for q in recs[:3]: ctx.sample(dict(alg=q["alg"], opts=q["opts"], inst=insts[q["i"]-1].brief(), sol=q["sol"]))
    ctx.finish(assumptions=["symmetric distances, every customer individually feasible", "GAP: cone, k-means and demand based seeds; it may give up where a route cost limit is set"])
