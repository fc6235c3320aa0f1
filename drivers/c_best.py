# -*- coding: utf-8 -*-
"""C06: searches over several settings return the best of them."""
from c_build import *
from vlib import _np

def outc(I, kind, v):
    """outcome of one call: [routes, cost] or None with the reason"""
    if kind != "ret": return None, ("hang" if kind == "hang" else "exc"), str(v)
    t = enc_route(v) if v is not None else None
    if not t: return None, "exc", "no solution"
    k = sum(1 for a, b in zip(t, t[1:]) if a != 0 and b == 0)
    return [k, sum(I.Di[a][b] for a, b in zip(t, t[1:]))], "plan", ""

def settings(j):
    """(multi call, [single calls], fine calls per single, exact)"""
    from verypy.classic_heuristics import gaskell_savings as GA, paessens_savings as PA, suppression_savings as SU
    from verypy.classic_heuristics import mole_jameson_insertion as MJ, sweep as SW, gillet_miller_sweep as GM, wren_holliday_sweep as WH
    from verypy.classic_heuristics import nearest_neighbor as NN
    I, mk, fam = j["I"], j["mk"], j["fam"]
    a = (I.D, I.d, I.C, I.L, mk); p = list(I.pts); b = (p, I.D, I.d, I.C, I.L, mk); n = I.n
    F = lambda f, *x, **k: (lambda: call(f, *x, cpu=60, **k))
    if fam == "gs":
        return [F(GA.gaskell_savings_init, *a), F(GA.gaskell_savings_init, *a, savings_method="both"), lambda: reg("gpl", I, False, mk)][j["var"] % 3], \
               [F(GA.gaskell_savings_init, *a, savings_method=m) for m in ("lambda", "pi")], [], True
    if fam == "gpslist":
        st = j["strat"]
        return F(PA.paessens_savings_init, *a, strategy=list(st), do_3opt=j["opt"]), [F(PA.paessens_savings_init, *a, strategy=[x], do_3opt=j["opt"]) for x in st], [], True
    if fam == "gpsM1":
        np = _np(); st = [(x, y) for x in np.linspace(.8, 2.0, num=13) for y in np.linspace(0.0, 1.0, num=11)]
        return F(PA.paessens_savings_init, *a, strategy="M1", do_3opt=j["opt"]), [F(PA.paessens_savings_init, *a, strategy=[x], do_3opt=j["opt"]) for x in st], [], True
    if fam == "gpsM4":
        st = [(1.0, .1), (1.0, .5), (1.4, .0), (1.4, .5)]; h = .1
        fine = [[F(PA.paessens_savings_init, *a, strategy=[x], do_3opt=j["opt"]) for x in ((g-h, f), (g+h, f), (g, f-h), (g, f+h))] for g, f in st]
        m = (lambda: reg("gps", I, j["var"] % 2 == 0, mk)) if j["opt"] and j["var"] % 3 else F(PA.paessens_savings_init, *a, strategy="M4", do_3opt=j["opt"])
        return m, [F(PA.paessens_savings_init, *a, strategy=[x], do_3opt=j["opt"]) for x in st], fine, True
    if fam == "supp":
        m = j["Lp"]
        auto = int(n/7)+5
        mm = (lambda: reg("ims", I, False, mk)) if m == "auto" and j["var"] % 2 else F(SU.suppression_savings_init, *a, Lprime=m)
        return mm, [F(SU.suppression_savings_init, *a, Lprime=x) for x in (range(1, auto+1) if m == "auto" else range(1, m+1))], [], True
    if fam == "mj":
        big = j["big"]
        subs = {"all": ["proximity_ranking", "min_strain", "clarke_wright", "gaskell", "augumented_min_strain"], "gaskell": ["clarke_wright"],
                "augumented_min_strain": ["min_strain", "clarke_wright"]}[big]
        mm = (lambda: reg("mj", I, False, mk)) if big == "all" and j["var"] % 2 else F(MJ.mole_jameson_insertion_init, *a, strain_criterion=big)
        return mm, [F(MJ.mole_jameson_insertion_init, *a, strain_criterion=x) for x in subs], [], big == "all"
    if fam in ("swp", "gm"):
        f = SW.sweep_init if fam == "swp" else GM.gillet_miller_init
        dr = j["dir"]; reg_ = j["var"] % 3 == 0 and dr == "both"
        mm = (lambda: reg(fam, I, False, mk)) if reg_ else F(f, *b, direction=dr, seed_node=SW.BEST_ALTERNATIVE)
        return mm, [F(f, *b, direction=x, seed_node=[s]) for x in (["cw", "ccw"] if dr == "both" else [dr]) for s in range(n)], [], True
    if fam == "wh":
        dr = j["dir"]; ds = ["cw", "ccw"] if dr == "both" else [dr]
        if j["var"] % 3 == 0:
            mm = (lambda: reg("wh", I, False, mk)) if dr == "cw" and j["var"] % 2 else F(WH.wren_holliday_init, *b, seed_node=WH.BEST_OF_FOUR, direction=dr)
            return mm, [F(WH.wren_holliday_init, *b, seed_node=WH.LEAST_DENSE, direction=x) for x in ds], [], False
        return F(WH.wren_holliday_init, *b, seed_node=WH.BEST_ALTERNATIVE, direction=dr), \
               [F(WH.wren_holliday_init, *b, seed_node=s, direction=x) for x in ds for s in range(n)], [], True
    if fam == "nn":
        one = call(NN.nearest_neighbor_init, I.D, I.d, I.C, I.L, emerging_route_count=1, cpu=30)
        k = (one[1].count(0)-1) if one[0] == "ret" and one[1] else 1
        return (lambda: reg("pn", I, False, False)), [F(NN.nearest_neighbor_init, I.D, I.d, I.C, I.L, emerging_route_count=x) for x in range(1, k+1)], [], True
    raise ValueError(fam)

def one06(j):
    I = j["I"]; q = dict(what="search", key=j["fam"], fam=j["fam"], mk=j["mk"], out="plan", res=[], cands=[], fine=[], exact=True, msg="", opts=j["opts"])
    multi, singles, fine, q["exact"] = settings(j)
    q["res"], q["out"], q["msg"] = outc(I, *multi())
    if q["out"] != "plan": q["res"] = []; return q
    for s in singles:
        o, w, m = outc(I, *s())
        if w != "plan": q["out"], q["msg"] = w, "single setting: "+m; return q
        q["cands"].append(o)
    for fs in fine:
        row = []
        for s in fs:
            o, w, m = outc(I, *s())
            if w != "plan": q["out"], q["msg"] = w, "single setting: "+m; return q
            row.append(o)
        q["fine"].append(row)
    return q

FAMS = dict(gs=24, gpslist=10, gpsM4=14, supp=24, mj=12, swp=12, gm=7, wh=14, nn=16)
def jobs06(ctx):
    r = ctx.rng("best"); insts = []; jobs = []
    def inst(k, n, coords):
        tc = r.choice(["tight", "tight", "any"])
        if coords:
            I = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "ceil"], grid=r.choice([3, 6, 20, 60]), coords=True, seed=k, C=tc, dem=r.choice(["mixed", "big", "small"]) if tc == "tight" else None)
            if I.Li: I.Di = metric_closure([list(x) for x in I.Di]); I.Li = max(I.Li, 2*max(I.Di[0])); finish_inst(I, I.s, sd_of(I), r)
        else: I = build_inst(r, n, k, C=tc)
        if r.random() < .5 and n > 2:      # about two to four routes, packing matters
            I.Ci = max(max(I.di), -(-sum(I.di)*r.choice([10, 11, 12])//(10*r.choice([2, 3, 4])))); finish_inst(I, I.s, sd_of(I), r)
        insts.append(I); return I
    for fam, w in FAMS.items():
        for k in range(ctx.n(w*50, w*300)):
            slow = fam in ("gm", "wh", "mj", "gpsM4")
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9] if slow else [1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 14, 16])
            if fam == "supp": n = max(2, n+r.choice([0, 6]))
            if fam == "mj" and r.random() < .7: n = max(n, r.choice([6, 7, 8, 9]))
            big4 = fam == "gpsM4" and r.random() < .6     # the fine tuning only matters on instances with several routes
            if big4: n = r.choice([9, 10, 12, 14, 16])
            I = inst(k, n, fam in ("swp", "gm", "wh"))
            j = dict(I=I, idx=len(insts)-1, fam=fam, mk=(r.random() < .4 and fam != "nn"), var=r.randrange(6), dir=r.choice(["cw", "ccw", "both"]), opt=r.random() < .4,
                     strat=[(r.choice([.5, .8, 1.0, 1.2, 1.5, 2.0]), r.choice([0., .1, .25, .5, 1.])) for _ in range(r.randint(1, 6))],
                     Lp=r.choice(["auto", 1, 2, 3, 5, 8]) if n > 2 else 1, big=r.choice(["all", "all", "gaskell", "augumented_min_strain"]))
            if big4: j["opt"] = False
            if j["Lp"] != "auto": j["Lp"] = max(1, min(j["Lp"], n*(n-1)//2))
            elif n*(n-1)//2 < int(n/7)+5: j["Lp"] = n*(n-1)//2
            j["opts"] = dict((x, str(j[x])) for x in ("var", "dir", "opt", "strat", "Lp", "big")); jobs.append(j)
    for k in range(ctx.n(4, 40)):
        I = inst(k, r.choice([3, 4, 5, 6]), False)
        jobs.append(dict(I=I, idx=len(insts)-1, fam="gpsM1", mk=r.random() < .5, opt=r.random() < .3, opts={}))
    return insts, jobs

def comparisons():
    """the whole comparison rule over a small domain"""
    from verypy.util import is_better_sol
    inf = 10**9; q = []
    vals = [None]+[[k, f] for k in (1, 2, 3, inf) for f in (0, 1, 2, inf)]
    dec = lambda x: (None, None) if x is None else tuple(float("inf") if y == inf else y for y in (x[1], x[0]))
    for mk in (False, True):
        for b in vals:
            for c in vals:
                for halves in ((0, 1, 2) if c is None and b is not None else (0,)):    # a candidate lacking one of its two figures
                    cf, cK = dec(c)
                    if halves == 1: cf = 1.0
                    if halves == 2: cK = 1
                    kind, v = call(is_better_sol, *dec(b), cf, cK, mk)
                    q.append(dict(what="cmp", key="is_better_sol", mk=mk, best=b or [], cand=c or [], ans=bool(v) if kind == "ret" else False, out="plan" if kind == "ret" else "exc", msg=str(v)))
    return q

def main(prop):
    ctx = Ctx(prop)
    with quiet(): preload(["swp", "gm", "wh", "mj", "gps", "gpl", "ims", "pn"])
    mc(ctx, "BestOfMC", "BestOfMC.cfg")
    insts, jobs = jobs06(ctx)
    import c_build
    c_build._fn[0] = one06
    jobs.sort(key=lambda j: -(j["I"].n*{"gm": 6, "wh": 6, "mj": 5, "gpsM1": 40}.get(j["fam"], 1)))
    idx = [j["idx"] for j in jobs]
    recs = [q for part in pmap(many, [[j] if j["fam"] == "gpsM1" else [j] for j in jobs], chunksize=4) for q in part]
    for q, i in zip(recs, idx): q["inst"] = i
    ctx.log("ran %d searches" % len(recs))
    recs += comparisons()
    bare = [dict((k, v) for k, v in q.items() if k not in ("inst", "opts", "msg", "key", "fam")) for q in recs]
    res = tlc(ctx, "BestOfTrace", files={"VTRACE": bare}, expect_states=2*len(recs))
    for t, c in sorted(set(res["bad"])):
        q = dict(recs[t-1])
        if "inst" in q: q["inst"] = insts[q["inst"]].brief()
        ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    ctx.notes["informative"] = sum(1 for q in recs if q["what"] == "search" and len(set(map(tuple, q["cands"]))) > 1)
    ctx.notes["cost_and_routes_disagree"] = sum(1 for q in recs if q["what"] == "search" and q["cands"] and min(q["cands"])[1] != min(c[1] for c in q["cands"]))
    ctx.notes["informative_per_family"] = dict((f, sum(1 for q in recs if q.get("fam") == f and len(set(map(tuple, q["cands"]))) > 1)) for f in list(FAMS)+["gpsM1"])
    ctx.notes["per_family"] = dict((f, sum(1 for q in recs if q.get("fam") == f)) for f in list(FAMS)+["gpsM1"])
    for q in recs[-3:]+recs[700:703]: ctx.sample(q)
    ctx.log("%d records, %d rejected; %d informative" % (len(recs), len(set(res["bad"])), ctx.notes["informative"]))
    ctx.finish(assumptions=["each setting run alone is the same code reached through the option that selects it", "symmetric distances; triangle inequality where a route cost limit is set; exact arithmetic"])
