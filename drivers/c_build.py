# -*- coding: utf-8 -*-
"""C12-C15: plans of the construction heuristics, explained by the machines of Savings / Construct."""
from c_moves import *

def build_inst(r, n, k, metric=False, **kw):
    """seeded instance; with a route cost limit its distances obey the triangle inequality"""
    I = gen_inst(r, n=n, kinds=["euc", "euc", "man", "dyadic", "dyadic", "metric", "explicit"], grid=r.choice([1, 2, 3, 6, 20, 60, 100] if n <= 7 else [20, 60, 100] if n <= 10 else [100, 200]),
                 seed=k, dem=r.choice(["small", "unit", "zeros", "dyadic", "mixed", "big"]), **kw)
    if I.Li or metric:
        I.Di = metric_closure([list(x) for x in I.Di])
        if I.Li: I.Li = max(I.Li, 2*max(I.Di[0]))
        finish_inst(I, I.s, sd_of(I), r)
    return I

def rec(job, kind, v, I, **kw):
    q = dict(i=job["idx"]+1, out="plan", sol=[], msg="", key=job["what"], what=job["what"], **kw)
    if kind == "ret":
        q["sol"] = enc_route(v) if v is not None else None
        if q["sol"] is None: q["out"] = "exc"; q["sol"] = []; q["msg"] = "malformed result"
    else: q["out"] = "hang" if kind == "hang" else "exc"; q["msg"] = str(v)
    return q

def reg(ab, I, single, mk):
    return call(algo(ab)[3], list(I.pts), I.D, I.d, I.C, I.L, None, I.ewt, single, mk, cpu=30)

# ---------------------------------------------------------------- C12
def one12(j):
    from verypy.classic_heuristics.parallel_savings import parallel_savings_init
    from verypy.classic_heuristics import gaskell_savings as GA, paessens_savings as PA, suppression_savings as SU
    I, f, mk, way = j["I"], j["f"], j["mk"], j["way"]
    a = (I.D, I.d, I.C, I.L, mk)
    nm = f["name"]
    if nm == "cw":
        kind, v = reg("ps", I, False, mk) if way else call(parallel_savings_init, *a)
    elif nm == "pi":
        if way == 1: kind, v = reg("gpl", I, True, mk)
        elif way: kind, v = call(GA.gaskell_savings_init, *a, savings_method="pi")
        else: kind, v = call(parallel_savings_init, *a, savings_callback=GA.gaskell_pi_savings_function)
    elif nm == "lambda":
        if way: kind, v = call(GA.gaskell_savings_init, *a, savings_method="lambda")
        else: kind, v = call(parallel_savings_init, *a, savings_callback=GA.gaskell_lambda_savings_function)
    elif nm == "gf":
        g, ff = f["g"]/float(f["q"]), f["f"]/float(f["q"])
        if way: kind, v = call(PA.paessens_savings_init, *a, strategy=[(g, ff)], do_3opt=False)
        else: kind, v = call(parallel_savings_init, *a, savings_callback=lambda D: PA.paessens_savings_function(D, g, ff))
    elif j.get("rounds"):                       # the rounds of Holmes and Parker: each suppresses one more pair, one list of savings is reused
        supp, cache = set(), []; f = dict(f)
        def again(D):
            f["supp"] = sorted([int(x), int(y)] for x, y in supp)
            return SU.supression_savings_function(D, supp, cache)
        for _ in range(j["rounds"]): kind, v = call(parallel_savings_init, *a, savings_callback=again)
    else:
        if way and not f["supp"]: kind, v = call(SU.suppression_savings_init, *a, Lprime=1)
        else: kind, v = call(parallel_savings_init, *a, savings_callback=lambda D: SU.supression_savings_function(D, set(map(tuple, f["supp"]))))
    return rec(j, kind, v, I, f=f, mk=mk)

def jobs12(ctx):
    r = ctx.rng("sav"); insts = []; jobs = []
    for k in range(ctx.n(1500, 20000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 12] + ([20] if k % 15 == 0 else []))
        I = build_inst(r, n, k); insts.append(I)
        for nm in r.sample(["cw", "pi", "lambda", "gf", "supp", "cw"], 3):
            f = dict(name=nm, q=1, g=1, f=0, supp=[], loose=False)
            if nm == "lambda":
                mx = max(max(x) for x in I.Di)
                if n > 8 or mx > 1500: continue
                f["loose"] = n+1 not in (2, 4, 8)
            if nm == "gf":
                f["q"] = r.choice([1, 2, 4, 8]); f["g"] = r.randint(0, 3*f["q"]); f["f"] = r.randint(0, f["q"])
            if nm == "supp" and n > 1 and r.random() < .7:
                P = [[a, b] for a in range(1, n+1) for b in range(a+1, n+1)]
                f["supp"] = r.sample(P, r.randint(1, min(4, len(P))))
            jobs.append(dict(I=I, idx=len(insts)-1, f=f, mk=r.random() < .35, way=r.choice([0, 0, 1, 2]), what=nm))
            if nm == "supp" and n > 2: jobs.append(dict(jobs[-1], rounds=r.randint(2, min(6, n*(n-1)//2))))
    return insts, jobs, one12

# ---------------------------------------------------------------- C13 C14 C15
def cf(**k):
    c = dict(alg="", slots=1, seed="closest", mk=False, lam=1, mu=0, q=1, endonly=False); c.update(k); return c

def one13(j):
    from verypy.classic_heuristics.sequential_savings import sequential_savings_init
    I, c = j["I"], j["cf"]
    if j["way"]: kind, v = reg("ss", I, False, c["mk"])
    else: kind, v = call(sequential_savings_init, I.D, I.d, I.C, I.L, c["mk"], initialize_routes_with=c["seed"])
    return rec(j, kind, v, I, cf=c)

def jobs13(ctx):
    r = ctx.rng("ss"); insts = []; jobs = []
    for k in range(ctx.n(1800, 20000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] + ([24] if k % 15 == 0 else []))
        I = build_inst(r, n, k); insts.append(I)
        for _ in range(2):
            way = r.random() < .3
            jobs.append(dict(I=I, idx=len(insts)-1, way=way, what="ss",
                             cf=cf(alg="ss", seed="closest" if way else r.choice(["closest", "closest", "farthest"]), mk=r.random() < .35)))
    return insts, jobs, one13

def one14(j):
    from verypy.classic_heuristics.cheapest_insertion import cheapest_insertion_init, parametrized_insertion_criteria
    I, c = j["I"], j["cf"]
    if j["way"] == "si": kind, v = reg("si", I, False, c["mk"])
    elif j["way"] == "pi":
        kind, v = reg("pi", I, False, c["mk"])
        k2, s = reg("si", I, False, c["mk"])       # documented: as many emerging routes as the sequential run needs
        c["slots"] = max(1, s.count(0)-1) if k2 == "ret" else 1
    else:
        kw = dict(emerging_route_count=c["slots"], initialize_routes_with=c["seed"])
        if (c["lam"], c["mu"]) != (c["q"], 0) or j["way"] == "cb":
            lm, mm = c["lam"]/float(c["q"]), c["mu"]/float(c["q"])
            kw["insertion_strain_callback"] = lambda D, i, u, w: parametrized_insertion_criteria(D, i, u, w, lm, mm)
        kind, v = call(cheapest_insertion_init, I.D, I.d, I.C, I.L, c["mk"], **kw)
    return rec(j, kind, v, I, cf=c)

def jobs14(ctx):
    r = ctx.rng("ins"); insts = []; jobs = []
    for k in range(ctx.n(1300, 15000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10] + ([20] if k % 20 == 0 else []))
        I = build_inst(r, n, k); insts.append(I)
        for _ in range(2):
            way = r.choice(["", "", "", "cb", "si", "pi"])
            c = cf(alg="ins", seed="farthest", mk=r.random() < .35)
            if way in ("", "cb"):
                c["slots"] = r.randint(1, min(n+1, 4)); c["seed"] = r.choice(["farthest", "farthest", "closest"])
                if r.random() < .5:
                    c["q"] = r.choice([1, 2, 4]); c["lam"] = r.randint(0, 2*c["q"]); c["mu"] = r.randint(0, 2*c["q"])
            jobs.append(dict(I=I, idx=len(insts)-1, way=way, what="ins", cf=c))
    return insts, jobs, one14

def one15(j):
    from verypy.classic_heuristics.nearest_neighbor import nearest_neighbor_init
    I, c = j["I"], j["cf"]
    if j["way"] == "sn": kind, v = reg("sn", I, False, False)
    elif j["way"] == "pn": kind, v = reg("pn", I, True, False)
    else: kind, v = call(nearest_neighbor_init, I.D, I.d, I.C, I.L, c["slots"], c["seed"], c["endonly"])
    return rec(j, kind, v, I, cf=c)

def jobs15(ctx):
    r = ctx.rng("nn"); insts = []; jobs = []
    for k in range(ctx.n(2000, 25000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] + ([25] if k % 15 == 0 else []))
        I = build_inst(r, n, k); insts.append(I)
        for _ in range(2):
            way = r.choice(["", "", "", "sn", "pn"])
            c = cf(alg="nn")
            if way == "":
                c["slots"] = r.choice([1, 1, 2, 3, 4, min(n+1, 5)]); c["seed"] = r.choice(["closest", "closest", "farthest", "nearest"])
                c["endonly"] = r.random() < .4
            jobs.append(dict(I=I, idx=len(insts)-1, way=way, what="nn", cf=c))
    return insts, jobs, one15

TABLE = dict(C12=jobs12, C13=jobs13, C14=jobs14, C15=jobs15)
MCS = dict(C12=[("SavingsMC", "SavingsMC.cfg")], C13=[("ConstructMC", "ConstructMC_ss.cfg")],
           C14=[("ConstructMC", "ConstructMC_ins.cfg")], C15=[("ConstructMC", "ConstructMC_nn.cfg")])
_fn = [None]
def many(js): return [_fn[0](j) for j in js]

def main(prop):
    ctx = Ctx(prop)
    for m, c in MCS[prop]: mc(ctx, m, c)
    with quiet(): preload(["ps", "gpl", "ss", "si", "pi", "sn", "pn"])
    insts, jobs, fn = TABLE[prop](ctx); _fn[0] = fn
    recs = [q for part in pmap(many, chunks(jobs, 40)) for q in part]
    ctx.log("ran %d constructions" % len(recs))
    files = {"VINST": [I.tla() for I in insts]}
    light = [{k: q[k] for k in ("i", "out", "sol", "f", "mk", "cf") if k in q} for q in recs]
    if prop == "C12":
        res = tlc(ctx, "SavingsTrace", files=dict(files, VTRACE=light), expect_states=2*len(light))
        bad = [(t-1, c) for t, c in sorted(set(res["bad"]))]
    else:
        res = tlc(ctx, "ConstructTrace", files=dict(files, VTRACE=light))
        bad = [(t-1, c) for t, c in sorted(set(res["bad"]))]
        seen = set(b[0] for b in bad)
        bad += [(j, "no run of the heuristic builds this plan") for j in range(len(recs)) if j not in seen and j+1 not in res["match"]]
        ctx.notes["plans_matched"] = len(res["match"])
    for j, c in bad:
        q = dict(recs[j]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["what"]] = kinds.get(q["what"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d plans, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances; triangle inequality where a route cost limit is set; exact arithmetic",
                            "ties in the documented criterion may be broken either way"])
