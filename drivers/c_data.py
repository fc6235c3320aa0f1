# -*- coding: utf-8 -*-
"""C18 C19 C20 C24 C25: data-level operations on plans, judged by PlanData."""
from c_moves import *

def rec(kind, idx, out, **k):
    q = dict(kind=kind, i=idx+1, out={"ret": "ret", "hang": "hang"}.get(out, "exc"), msg="", key=kind); q.update(k); return q

def tiny_insts(r, k):
    """instances with 1..3 customers whose limits cut through the possible routes"""
    out = []
    for _ in range(k):
        n = r.choice([1, 2, 2, 3, 3])
        I = base(r, n, dem=r.choice(["small", "zeros", "dyadic", "unit"]))
        sub = r.sample(range(1, n+1), r.randint(1, n))
        Ci = max(1, rl(I, sub)+r.choice([-1, 0, 0, 0, 1])) if r.random() < .75 else 0
        Li = max(1, rc(I, sub)+r.choice([-1, 0, 0, 0, 1])) if r.random() < .75 else 0
        out.append(limit(I, Ci, Li))
    return out

# ---------------------------------------------------------------- C18
def report(job):
    with quiet(): from verypy.cvrp_ops import validate_solution_feasibility as vsf
    res = []
    for I, idx, t, form in job:
        args = [t, I.D, I.d, I.C, I.L]
        if form == 1 and not I.C: args[2] = None
        if form == 2 and not I.L: args[1] = None
        if form == 3: args += [True]
        kind, v = call(vsf, *args, cpu=10)
        q = rec("report", idx, kind, t=t, res=[], form=form)
        if kind == "ret":
            try: q["res"] = [bool(x) for x in v]
            except Exception: q["out"] = "malformed"
        else: q["msg"] = str(v)
        res.append(q)
    return res

def jobs_report(ctx):
    r = ctx.rng("rep"); insts = []; jobs = []
    for I in tiny_insts(r, ctx.n(14, 120)):
        insts.append(I)
        for m in range(1, ctx.n(6, 7) if I.n > 2 else 7):
            for t in itertools.product(range(I.n+1), repeat=m):
                if 0 in t and (len(t) < 6 or r.random() < .3): jobs.append((I, len(insts)-1, list(t), r.randrange(4)))
    ctx.notes["exhaustive_sequences"] = len(jobs)
    for k in range(ctx.n(1500, 10000)):
        n = r.randint(3, 9) if k % 15 else r.randint(15, 60)
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit"]))
        rs = split(r, range(1, n+1), r.randint(1, min(n, 4)))
        limits_for(r, I, rs, .7, .7)
        if I.Ci and r.random() < .4: I = limit(I, max(1, I.Ci-r.choice([1, 2, sd_of(I)])), I.Li)
        if I.Li and r.random() < .4: I = limit(I, I.Ci, max(1, I.Li-r.choice([1, 2, 5])))
        insts.append(I)
        t = [0]
        for x in rs: t += list(x)+[0]*r.choice([1, 1, 1, 2])
        y = r.random()
        if y < .15: t.insert(r.randrange(len(t)), r.randint(1, n))
        elif y < .3: t.remove(r.choice([c for c in t if c]))
        elif y < .4: t[r.choice([j for j, c in enumerate(t) if c])] = r.randint(1, n)
        if r.random() < .4:
            z = r.randrange(len(t)); t = t[z:]+t[:z]
            if r.random() < .5 and len(t) > 1 and t[0] == 0 and t[-1] == 0: t = t[1:]
        jobs.append((I, len(insts)-1, t, r.randrange(4)))
    return insts, jobs, report

# ---------------------------------------------------------------- C19
def write_route(r, x):
    x = list(x)
    if not x: return r.choice([[], [0], [0, 0]])
    return ([0] if r.random() < .6 else [])+x+([0] if r.random() < .6 else [])
def giant(r, rs, messy=True):
    t = [0]
    for x in rs:
        t += list(x)+[0]
        if messy and r.random() < .2: t.append(0)
    if messy and r.random() < .15: t = [0]+t
    return t

def encs(job):
    from verypy import cvrp_ops as O, util as U
    res = []
    for I, idx, op, rs, x in job:
        r = random.Random(x)
        base_ = dict(op=op, rs=[list(y) for y in rs], num=0, t=[], cyclic=False, res=[], edges=[], sym=False)
        lst = [write_route(r, y) for y in rs]
        t = giant(r, rs)
        if op == "cost":
            f = r.randrange(3)
            if f == 0: kind, v = call(O.recalculate_objective, lst, I.D); base_["form"] = lst
            else:
                if f == 2:
                    z = r.randrange(len(t)); t = t[z:]+t[:z]
                    if r.random() < .5 and t[-1] == 0 and len(t) > 1: t = t[:-1]
                    if 0 not in t: t = t+[0]
                if r.random() < .2:
                    kind, v = call(O.recalculate_objective, _np().array(t), I.D)
                else: kind, v = call(O.recalculate_objective, t, I.D)
                base_["t"] = t; base_["cyclic"] = True
            if kind == "ret": base_["num"] = enc(v, I.s)
        elif op == "objf":
            y = r.choice([t, [0]+list(rs[0])+[0]]); base_["t"] = y
            kind, v = call(U.objf, y, I.D)
            if kind == "ret": base_["num"] = enc(v, I.s)
        elif op == "totald":
            y = r.choice([t, [0]+list(rs[0])+[0]]); base_["t"] = y
            kind, v = call(U.totald, y, I.d)
            if kind == "ret": base_["num"] = enc(v, sd_of(I))
        elif op == "normalize":
            outs = []; kind = "ret"
            for j in range(4):
                if j == 0: a = t if r.random() < .5 else lst
                elif j == 1: a = outs[0]
                else:
                    q = [list(reversed(y)) if r.random() < .5 else list(y) for y in rs]; r.shuffle(q)
                    a = giant(r, q) if j == 2 else [write_route(r, y) for y in q]
                kind, v = call(O.normalize_solution, a)
                if kind != "ret": break
                v = enc_route(v)
                if v is None: kind = "malformed"; break
                outs.append(v)
            base_["res"] = outs
        elif op == "sol2routes":
            base_["form"] = t
            kind, v = call(U.sol2routes, t)
            if kind == "ret": base_["res"] = [enc_route(y) for y in v]
        elif op == "routes2sol":
            base_["form"] = lst
            kind, v = call(U.routes2sol, lst)
            if kind == "ret": base_["res"] = [enc_route(v)]
        elif op == "noempty":
            base_["form"] = t
            kind, v = call(U.without_empty_routes, t)
            if kind == "ret": base_["res"] = [enc_route(v)]
        elif op == "edges":
            t = giant(r, rs, False); base_["t"] = t; s = r.random() < .5; base_["sym"] = s
            kind, v = call(U.sol2edgeset, t, s) if r.random() < .7 or not s else call(U.sol2edgeset, t)
            if kind == "ret": base_["edges"] = [[int(a), int(b)] for a, b in v]
        q = rec("enc", idx, kind, **base_)
        q["key"] = op
        if kind == "malformed" or any(y is None for y in q["res"]): q["out"] = "malformed"; q["res"] = []
        elif kind != "ret": q["msg"] = str(v)
        res.append(q)
    return res

def jobs_enc(ctx):
    r = ctx.rng("enc"); insts = []; jobs = []
    ops = ["cost", "objf", "totald", "normalize", "normalize", "sol2routes", "routes2sol", "noempty", "edges"]
    for k in range(ctx.n(1500, 10000)):
        n = r.choice([1, 2, 3, 4, 6, 9, 12]) if k % 20 else r.randint(15, 60)
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit"]))
        if r.random() < .25:   # asymmetric matrix for the pure sums
            M = [row[:] for row in I.Di]
            for i in range(n+1):
                for j in range(n+1):
                    if i != j: M[i][j] = r.randint(0, 30)
            I.Di = M; I.D = _np().array(M)/float(I.s) if I.s > 1 else _np().array(M)
        insts.append(I)
        rs = split(r, range(1, n+1), r.randint(1, min(n, 5)))
        if r.random() < .3: rs.insert(r.randrange(len(rs)+1), [])
        for op in ops:
            jobs.append((I, len(insts)-1, op, rs, r.random()))
    return insts, jobs, encs
from vlib import _np

# ---------------------------------------------------------------- C20
def service(job):
    from verypy.cvrp_ops import D2D_c
    np = _np(); res = []
    for I, idx, st, dtype in job:
        D = I.D.astype(dtype) if dtype else I.D.copy(); D0 = D.copy()
        kind, v = call(D2D_c, D, st, cpu=10)
        q = rec("st", idx, kind, mat=[], st=enc(st, I.s), mut=bool((D != D0).any()), stv=st, dtype=str(D.dtype))
        if kind == "ret":
            try: q["mat"] = [[enc(x, I.s) for x in row] for row in v.tolist()]
            except Exception: q["out"] = "malformed"
        else: q["msg"] = str(v)
        res.append(q)
    return res

def jobs_service(ctx):
    r = ctx.rng("st"); insts = []; jobs = []
    for k in range(ctx.n(1500, 10000)):
        n = r.randint(1, 5) if k % 30 else r.randint(8, 30)
        I = base(r, n, seed=k)
        isint = I.s == 1 and I.D.dtype.kind == "i"
        # image at scale 16 s so that halves of fractional service times stay exact
        f = 16; I.Di = [[x*f for x in row] for row in I.Di]; I.s *= f; I.Li = 0
        insts.append(I)
        for st in r.sample([1, 2, 3, 7, 10, 13, 90, 5.0, 4.0, .5, 1.5, 2.5, .25, 10.75, 3.125], 3):
            dt = None
            if isint: dt = r.choice([None, "int64", "int32", float])
            jobs.append((I, len(insts)-1, st, dt))
    return insts, jobs, service

# ---------------------------------------------------------------- C24
def tsps(job):
    from verypy.tsp_solvers import tsp_solver_ropt as T
    res = []
    for I, idx, sel, fn, closed in job:
        a = list(sel)+([sel[0]] if closed else []); a0 = list(a); D0 = I.D.copy()
        if fn == "shuffle": kind, v = call(T.solve_tsp_ropt, I.D, a, True)
        else: kind, v = call(getattr(T, fn), I.D, a)
        q = rec("tsp", idx, kind, nodes=list(sel), tour=[], num=0, three=fn != "solve_tsp_2opt", mut=a != a0 or bool((I.D != D0).any()), fn=fn)
        if fn == "shuffle": q["nodes"] = list(sel)
        if kind == "ret":
            try:
                q["tour"] = enc_route(v[0]); q["num"] = enc(v[1], I.s)
                if q["tour"] is None: q["tour"] = []; q["out"] = "malformed"
            except Exception: q["out"] = "malformed"
        else: q["msg"] = str(v)
        res.append(q)
    return res

def jobs_tsp(ctx):
    r = ctx.rng("tsp"); insts = []; jobs = []
    for e in itertools.product((0, 1, 3), repeat=6):
        I = tiny(3, e, [1, 1, 1], 0, 0, r); insts.append(I)
        jobs.append((I, len(insts)-1, [0, 1, 2, 3], r.choice(["solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt"]), r.random() < .5))
    for e in itertools.product((1, 2), repeat=10):
        I = tiny(4, e, [1]*4, 0, 0, r); insts.append(I)
        jobs.append((I, len(insts)-1, [0, 1, 2, 3, 4], r.choice(["solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt"]), r.random() < .5))
    for k in range(ctx.n(1500, 10000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 14]) if k % 40 else r.randint(15, 22)
        I = base(r, n, seed=k); insts.append(I)
        for fn in ["solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt"]:
            sel = r.sample(range(1, n+1), r.choice([n, n, r.randint(1, n)]))
            jobs.append((I, len(insts)-1, [0]+sel, fn, r.random() < .3))
    return insts, jobs, tsps

# ---------------------------------------------------------------- C25
def records(job):
    from verypy.routedata import RouteData
    res = []
    for I, idx, rs, hasd, form, dirs in job:
        d = I.d if hasd else None
        closed = [[0]+list(x)+[0] for x in rs]
        def run():
            if form == "routes": rds = RouteData.from_routes([list(c) for c in closed], I.D, d)
            else:
                t = [0]
                for x in rs: t += list(x)+[0]
                rds = RouteData.from_solution(t, I.D, d)
            back = RouteData.to_solution(rds)
            out = []
            for a in rds:
                if dirs == 0: a.update_auxiliary_data(I.D, d)
                else: a.update_auxiliary_data(I.D, d, dirs); a.update_auxiliary_data(I.D, d, -dirs)
                route, cost, dem, nodes = a
                assert a[0] == route and a[1] == cost and a[2] == dem and a[3] == nodes
                e = dict(route=enc_route(route), cost=enc(cost, I.s), dem=enc(dem, sd_of(I)), nodes=sorted(int(x) for x in nodes),
                         fwd_l=[enc(x, I.s) for x in a.fwd_l], rwd_l=[enc(x, I.s) for x in a.rwd_l],
                         fwd_d=[enc(x, sd_of(I)) for x in a.fwd_d], rwd_d=[enc(x, sd_of(I)) for x in a.rwd_d],
                         empty=bool(a.is_empty()))
                a.normalize(); e["norm"] = enc_route(a.route)
                out.append(e)
            return out, enc_route(back)
        kind, v = call(run, cpu=10)
        want = [c for c in closed if len(c) > 2] if form == "sol" else closed
        q = rec("rd", idx, kind, closed=want, hasd=hasd, recs=[], back=[], form=form)
        if kind == "ret": q["recs"], q["back"] = v
        else: q["msg"] = str(v)
        res.append(q)
    return res

def jobs_records(ctx):
    r = ctx.rng("rd"); insts = []; jobs = []
    for k in range(ctx.n(1500, 15000)):
        n = r.choice([1, 2, 3, 4, 6, 9, 12]) if k % 15 else r.randint(15, 60)
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit"])); insts.append(I)
        rs = split(r, range(1, n+1), r.randint(1, min(n, 5)))
        form = r.choice(["routes", "sol"])
        if r.random() < .2: rs.insert(r.randrange(len(rs)+1), [])
        jobs.append((I, len(insts)-1, rs, r.random() < .75, form, r.choice([0, 1, -1])))
    return insts, jobs, records

JOBS = {"C18": jobs_report, "C19": jobs_enc, "C20": jobs_service, "C24": jobs_tsp, "C25": jobs_records}
NOTE = {"C18": "stop sequences over known nodes with at least one depot visit",
        "C19": "plans visit each customer at most once; tours given to splitting start and end at the depot",
        "C20": "service times and distances are integers or exact binary fractions",
        "C24": "symmetric distances, at least one customer, depot first",
        "C25": "closed routes, symmetric distances"}

def main(prop):
    ctx = Ctx(prop)
    insts, jobs, fn = JOBS[prop](ctx)
    recs = [q for part in pmap(fn, chunks(jobs, 100)) for q in part]
    by = {}
    for q in recs: by[q.get("op", q["kind"])+"/"+q["out"]] = by.get(q.get("op", q["kind"])+"/"+q["out"], 0)+1
    ctx.notes["calls"] = by
    drop = ("msg", "key", "form", "stv", "dtype", "fn")
    light = [{k: v for k, v in q.items() if k not in drop} for q in recs]
    bad = judge(ctx, "PlanData", light, files={"VINST": [I.tla() for I in insts]}, label=prop)
    ctx.violations = []; ctx.known = []
    for idx, c in bad:
        q = dict(recs[idx]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    for q in recs[-3:]: ctx.sample(dict(q, inst=insts[q["i"]-1].brief()))
    ctx.finish(assumptions=[NOTE[prop]])
