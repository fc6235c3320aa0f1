# -*- coding: utf-8 -*-
"""C35: plans of the two-phase heuristic, explained by the machine of TwoPhase."""
from c_build import *

def one(j):
    from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
    I, c = j["I"], j["c"]
    if j["way"]: kind, v = reg("cmt", I, False, j["mk"])
    else:
        rep = c["rep"] if j["rep"] != "K" else "K"
        kind, v = call(cmt_2phase_init, I.D, I.d, I.C, I.L, j["mk"], lambda_multiplier=c["lam"]/float(c["q"]), mu_multiplier=c["mu"]/float(c["q"]),
                       phase1_seed_selection_method=c["seed"], phase2_choose_most_associated_route=c["most"],
                       phase2_repeated_association_with_n_routes=rep or None, cpu=30)
    return rec(j, kind, v, I, c=c)

def small(r, k):
    """few customers per route, distances with few ties"""
    n = r.choice([3, 4, 5, 6, 6, 7, 7, 8, 9, 10])
    I = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "explicit", "metric"], grid=r.choice([60, 100, 200]), seed=k, dem=r.choice(["unit", "small", "mixed"]), C="yes", L="none")
    if r.random() < .5:
        I.di = [0]+[r.choice([1, 1, 1, 2]) if r.random() < .4 else 1 for _ in range(n)]; I.Ci = r.choice([2, 3, 3, 4])
        finish_inst(I, I.s, 1, r)
    elif r.random() < .4:                       # no two demands alike
        I.di = [0]+r.sample(range(10, 20), n); I.Ci = r.choice([20, 30, 40, 60]); finish_inst(I, I.s, 1, r)
    return I

def tied(I, c):
    """how many pairs the criteria cannot tell apart (every choice multiplies the runs)"""
    D, R = I.Di, range(1, I.n+1); t = 0
    for s in R:
        v = [c["q"]*D[0][i]+c["lam"]*D[i][s] for i in R if i != s]; t += len(v)-len(set(v))
    for u in R:
        v = [c["q"]*D[0][u]+c["mu"]*D[u][s]-c["q"]*D[0][s] for s in R if s != u]; t += len(v)-len(set(v))
    v = I.di[1:] if c["seed"] == "biggest" else D[0][1:]; t += 2*(len(v)-len(set(v)))
    return t

def jobs(ctx):
    r = ctx.rng("cmt"); insts = []; out = []
    for k in range(ctx.n(6000, 60000)):
        if k % 3: I = small(r, k)
        elif k % 6 == 0: I = build_inst(r, r.choice([3, 4, 5, 6, 7]), k, C=r.choice(["yes", "tight", "none"]), L="yes")
        else:
            I = build_inst(r, r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), k, C=r.choice(["yes", "yes", "tight", "none"]), L="none")
        insts.append(I)
        for _ in range(3):
            way = r.random() < .2
            if way: c = dict(seed="farthest", lam=2, mu=1, q=1, most=True, rep=1); rep = 1
            else:
                q = r.choice([1, 1, 2, 4])
                rep = r.choice([0, 1, 2, 2, 3, 3, "K", "K"])
                c = dict(seed=r.choice(["farthest", "closest", "biggest", "first"]), lam=r.randint(0, 3*q), mu=r.randint(0, 3*q), q=q,
                         most=r.random() < .5, rep=I.n if rep == "K" else rep)
            if I.n > 4 and tied(I, c) > (4 if I.n < 7 else 2): continue
            out.append(dict(I=I, idx=len(insts)-1, way=way, mk=r.random() < .35, rep=rep, c=c, what="registered" if way else c["seed"]+(", repeated" if c["rep"] > 1 else "")))
    return insts, out

def many35(js): return [one(j) for j in js]
def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "TwoPhaseMC", "TwoPhaseMC.cfg")
    if ctx.tier != "quick": mc(ctx, "TwoPhaseMC", "TwoPhaseMC_big.cfg")
    with quiet(): preload(["cmt"])
    insts, js = jobs(ctx)
    recs = [q for part in pmap(many35, chunks(js, 40)) for q in part]
    ctx.log("ran %d constructions" % len(recs))
    light = [{k: q[k] for k in ("i", "out", "sol", "c")} for q in recs]
    res = tlc(ctx, "TwoPhaseTrace", files={"VINST": [I.tla() for I in insts], "VTRACE": light})
    bad = [(t-1, c) for t, c in sorted(set(res["bad"]))]
    seen = set(b[0] for b in bad)
    bad += [(j, "no run of the heuristic builds these routes") for j in range(len(recs)) if j not in seen and j+1 not in res["match"]]
    ctx.notes["plans_matched"] = len(res["match"])
    for j, c in bad:
        q = dict(recs[j]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["what"]] = kinds.get(q["what"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d plans, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances (triangle inequality where a route cost limit is set), exact arithmetic", "ties in the criteria may be broken either way",
                            "with a route cost limit, whether a tour of four or more customers within it is found is left open", "deterministic variant (no randomised retries)"])
