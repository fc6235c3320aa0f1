# -*- coding: utf-8 -*-
"""C16 (sweep) and C17 (splitting a giant tour)."""
from c_build import *
from vlib import _np

# ---------------------------------------------------------------- C16
def one16(j):
    from verypy.classic_heuristics import sweep as SW
    np = _np()
    I, how = j["I"], j["how"]
    q = dict(i=j["idx"]+1, pts=[[int(round(c*8)) for c in p] for p in I.pts], how=how, ord=[], part=False, incs=j["incs"], starts=[],
             mk=j["mk"], out="plan", routes=[], msg="", key=how)
    with quiet(): sw = SW.get_sweep_from_cartesian_coordinates(np.array(I.pts) if j["arr"] else list(I.pts))
    if j["part"]:
        keep = [k for k in range(sw.shape[1]) if k % 3 != j["part"] % 3] or [0]
        sw = sw[:, keep]; q["part"] = True
    q["ord"] = [int(x) for x in sw[2]]
    m = len(q["ord"]); st = j["start"] % m
    ra = lambda D, ns: (list(ns)+[0], sum(D[a, b] for a, b in zip(list(ns), list(ns)[1:]+[0])))
    if how in ("one", "first"):
        q["starts"] = [st+1]
        kind, v = call(SW.do_one_sweep, I.n+1, I.D, I.d, I.C, I.L, ra, sw, st, j["incs"][0], how == "first", cpu=20)
        if kind == "ret": v = [enc_route(x.route) for x in v]
    else:
        dr = {(1,): "ccw", (-1,): "cw"}.get(tuple(j["incs"]), "both")
        seed = j["seed"]; a = (list(I.pts) if not j["part"] or I.n == 2 else sw, I.D, I.d, I.C, I.L, j["mk"])
        if j["arr"] and I.n != 2: a = (sw,)+a[1:]
        if how == "reg":
            q["starts"] = [1] if j["single"] else list(range(1, m+1)); q["incs"] = [-1] if j["single"] else [1, -1]; q["mk"] = j["mk"]
            kind, v = reg("swp", I, j["single"], j["mk"])
        else:
            if seed == "closest": s = SW.CLOSEST_TO_DEPOT
            elif seed == "angle": s = SW.SMALLEST_ANGLE; q["starts"] = [1]
            elif seed == "best": s = SW.BEST_ALTERNATIVE; q["starts"] = list(range(1, m+1))
            elif seed == "node": s = q["ord"][st]; q["starts"] = [st+1]
            else: s = sorted(set([st, (st+2) % m, (st+3) % m])); q["starts"] = [x+1 for x in s]
            kind, v = call(SW.sweep_init, *a, direction=dr, seed_node=s, cpu=30)
        if kind == "ret":
            t = enc_route(v) if v is not None else None
            v = None
            if t and t[0] == 0 and t[-1] == 0:
                v = []; cur = []
                for x in t[1:]:
                    if x == 0: v.append([0]+cur+[0]); cur = []
                    else: cur.append(x)
            else: v = [None]
    if kind == "ret" and all(x and x[0] == 0 and x[-1] == 0 for x in v): q["routes"] = [x[1:-1] for x in v]
    else: q["out"] = "hang" if kind == "hang" else "exc"; q["msg"] = str(v)
    return q

def main16(ctx):
    r = ctx.rng("sw"); insts = []; jobs = []
    for k in range(ctx.n(6000, 40000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12] + ([25] if k % 12 == 0 else []))
        I = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "dyadic", "ceil"], grid=r.choice([2, 3, 6, 20, 60]), coords=True, seed=k)
        if I.Li:
            I.Di = metric_closure([list(x) for x in I.Di]); I.Li = max(I.Li, 2*max(I.Di[0])); finish_inst(I, I.s, sd_of(I), r)
        insts.append(I)
        for _ in range(2):
            how = r.choice(["one", "one", "first", "init", "init", "reg"])
            seed = r.choice(["closest", "angle", "best", "node", "list"]) if how == "init" else ""
            incs = [r.choice([1, -1])] if how in ("one", "first") or r.random() < .6 else [1, -1]
            part = r.choice([0, 0, 0, 1, 2]) if n != 2 and (how in ("one", "first") or seed == "list") else 0
            jobs.append(dict(I=I, idx=len(insts)-1, how=how, incs=incs, part=part, start=r.randrange(100), mk=r.random() < .3, arr=r.random() < .3,
                             seed=seed, single=r.random() < .5))
    return insts, jobs, one16, "SweepTrace"

# ---------------------------------------------------------------- C17
BIG = 1000000000
def one17(j):
    from verypy.classic_heuristics import rfcs as RF
    from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt
    I, mode, g, mk = j["I"], j["mode"], j["g"], j["mk"]
    q = dict(i=j["idx"]+1, g=list(g), table=[], mk=mk, out="plan", sol=[], msg="", key=mode, mode=mode)
    n = len(g)
    tl = lambda D: float(sum(D[a, b] for a, b in zip(g, g[1:]+g[:1])))
    gen = lambda D, nodes: (list(g)+([g[0]] if j["closed"] else []), tl(D))
    cost = lambda D, t: float(sum(D[a, b] for a, b in zip(t, t[1:])))
    def same(D, rt):
        t = list(rt)
        if t[-1] != 0: t = t+[0]
        return t, cost(D, t)
    tab = {}
    def rec_algo(D, rt):
        t, c = solve_tsp_2opt(D, rt)
        tab.setdefault(frozenset(int(x) for x in t if x != 0), []).append(c)
        return t, c
    if mode == "order": kind, v = call(RF.route_first_cluster_second_init, I.D, I.d, I.C, I.L, mk, gen, same, same, cpu=30)
    elif mode == "opt": kind, v = call(RF.route_first_cluster_second_init, I.D, I.d, I.C, I.L, mk, gen, rec_algo, solve_tsp_3opt, cpu=30)
    else:
        def gen2(D, nodes):
            t, c = RF.solve_tsp_intial(D, nodes); q["g"] = [int(x) for x in (t[:-1] if t[0] == t[-1] else t)]; return t, c
        kind, v = call(RF.route_first_cluster_second_init, I.D, I.d, I.C, I.L, mk, gen2, rec_algo, cpu=30)
    g = q["g"]
    if mode != "order" and n > 1:
        q["table"] = [[BIG]*n for _ in range(n)]
        for s in range(n):
            for m in range(1, n+1):
                cs = tab.get(frozenset(g[(s+k) % n] for k in range(m)))
                if cs: q["table"][s][m-1] = enc(min(cs), I.s)
        if n > 1 and any(len(set(c)) > 1 for k, c in tab.items()): q["ambiguous"] = True
    if kind == "ret":
        q["sol"] = enc_route(v) if v is not None else None
        if q["sol"] is None: q["out"] = "exc"; q["sol"] = []; q["msg"] = "malformed result"
    else: q["out"] = "hang" if kind == "hang" else "exc"; q["msg"] = str(v)
    return q

def main17(ctx):
    r = ctx.rng("split"); insts = []; jobs = []
    for k in range(ctx.n(4500, 30000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] + ([18] if k % 15 == 0 else []))
        hops = k % 4 == 3                    # short hops without the triangle inequality
        if hops and r.random() < .7: n = r.randint(7, 14)
        I = build_inst(r, n, k, C=r.choice(["yes", "tight", "tight", "none"])); insts.append(I)
        if hops:
            if r.random() < .7: I.Ci = max(max(I.di), -(-sum(I.di)*10//r.randint(12, 27)))
            I.Di = [[0]*(n+1) for _ in range(n+1)]; I.Li = 0; I.kind += "/hops"
            w = r.choice([[0, 1], [0, 0, 1, 2], [0, 0, 9], [0, 1, 2, 9]])
            for a in range(n+1):
                for b in range(a): I.Di[a][b] = I.Di[b][a] = r.choice(w)*I.s
            finish_inst(I, I.s, sd_of(I), r)
        g = list(range(1, n+1)); r.shuffle(g)
        for _ in range(2):
            jobs.append(dict(I=I, idx=len(insts)-1, g=g, mode=r.choice(["order", "order", "opt", "own"] if not hops else ["order", "opt", "opt", "opt", "own"]), mk=r.random() < .35, closed=r.random() < .4))
    return insts, jobs, one17, "SplitTrace"

def deeper(m):
    return open(os.path.join(SPEC, m+".cfg")).read().replace("VALS = {1, 2}", "VALS = {1, 2, 4}").replace("VALS = {1, 3}", "VALS = {1, 3, 4}")

def main(prop):
    ctx = Ctx(prop)
    with quiet(): preload(["swp", "rfcs"])
    insts, jobs, fn, module = {"C16": main16, "C17": main17}[prop](ctx)
    import c_build
    c_build._fn[0] = fn
    recs = [q for part in pmap(many, chunks(jobs, 40)) for q in part]
    amb = [q for q in recs if q.pop("ambiguous", False)]
    if amb:       # the routing procedure gave different costs for the same customers: no single arc cost
        ctx.notes["skipped_ambiguous"] = len(amb); ids = set(map(id, amb)); recs = [q for q in recs if id(q) not in ids]
    ctx.log("ran %d calls" % len(recs))
    mc(ctx, module.replace("Trace", "MC"), module.replace("Trace", "MC.cfg"))
    if ctx.tier == "thorough": mc(ctx, module.replace("Trace", "MC"), deeper(module.replace("Trace", "MC")))
    res = tlc(ctx, module, files={"VINST": [I.tla() for I in insts], "VTRACE": recs}, expect_states=2*len(recs))
    for t, c in sorted(set(res["bad"])):
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in recs[:3]: ctx.sample(q)
    ctx.log("%d calls, %d rejected" % (len(recs), len(set(res["bad"]))))
    ctx.finish(assumptions=["symmetric distances; triangle inequality where a route cost limit is set; exact arithmetic"])
