# -*- coding: utf-8 -*-
"""C07 C08 C09 C10: single calls of the local search operators, judged by MoveTrace."""
import itertools
from heur import *

BADNUM = -999999999

def enc(x, s):
    """exact scaled integer of a number, BADNUM when it is none"""
    try:
        v = float(x)*s
        return int(round(v)) if abs(v-round(v)) < 1e-6 and abs(v) < 1e9 else BADNUM
    except Exception:
        return BADNUM

def enc_route(r):
    try:
        out = [int(x) for x in r]
        return out if all(a == b for a, b in zip(out, r)) else None
    except Exception:
        return None

def sd_of(I): return 4 if I.kind.endswith("/dyadic") else 1

def limit(I, Ci, Li):
    I.Ci, I.Li = Ci, Li
    I.C = (Ci/float(sd_of(I)) if sd_of(I) > 1 else Ci) or None
    I.L = (Li/float(I.s) if I.s > 1 else Li) or None
    return I

def rc(I, r):
    q = [0]+list(r)+[0]
    return sum(I.Di[q[k]][q[k+1]] for k in range(len(q)-1)) if r else 0
def rl(I, r): return sum(I.di[c] for c in r)

def base(r, n, kinds=None, **kw):
    return gen_inst(r, n=n, kinds=kinds or ["euc", "man", "dyadic", "metric", "explicit", "explicit"],
                    C="none", L="none", grid=r.choice([2, 3, 6, 20, 60]), **kw)

def split(r, cs, k):
    cs = list(cs); r.shuffle(cs)
    cuts = sorted(r.sample(range(1, len(cs)), k-1)) if k > 1 else []
    return [cs[a:b] for a, b in zip([0]+cuts, cuts+[len(cs)])]

def limits_for(r, I, rs, pC=.7, pL=.5):
    """limits the routes rs and every single customer respect, often tightly"""
    ld = max([rl(I, x) for x in rs]+[max(I.di)]); co = max([rc(I, x) for x in rs]+[2*max(I.Di[0])])
    Ci = Li = 0
    if r.random() < pC: Ci = ld+r.choice([0, 0, 1, 2, 4, 8])*sd_of(I)
    if r.random() < pL: Li = co+r.choice([0, 0, 1, 2, co//10, co//4, co//2])
    return limit(I, Ci, Li)

# ---------------------------------------------------------------- one call
def call_op(job):
    """job: op, I, idx, rs(open routes), strat, bound(int scaled|None), extra -> record"""
    from verypy.local_search import LSOPT
    from verypy.routedata import RouteData
    from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE
    from verypy.local_search.solution_operators import do_3optstar_move
    op, I, idx, rs, strat, bound, x = job
    q = dict(op=op, i=idx+1, rs=[list(r) for r in rs], strat=strat, hasb=bound is not None, bound=bound or 0,
             cs=list(x.get("cs", [])), level=x.get("level", 0), out="", new=[], cost=[], dem=[], delta=0,
             inmut=False, msg="", form=x.get("form", ""))
    S = LSOPT.FIRST_ACCEPT if strat == "FIRST" else LSOPT.BEST_ACCEPT
    b = None if bound is None else (bound if I.s == 1 else bound/float(I.s))
    closed = [[0]+list(r)+[0] for r in rs]
    D0 = I.D.copy()
    snap = None
    if op in ("2opt", "3opt", "relocate", "exchange"):
        f = getattr(IA, "do_%s_move" % op)
        kind, v = call(f, closed[0], I.D, S, b, cpu=20)
        after = [closed[0]]; snap = [[0]+list(rs[0])+[0]]
        nres = 1
    elif op == "3optstar":
        t = [0]
        for r in rs: t += list(r)+[0]
        snap = [list(t)]
        kind, v = call(do_3optstar_move, t, I.D, I.d, I.C, I.L, S, b, cpu=30)
        after = [t]; nres = 1
    else:
        dem = I.d if (I.C or x.get("dem", True)) else None
        mk = RouteData.from_routes
        rd = mk([list(c) for c in closed], I.D, dem)
        if x.get("aux"):
            for k in rd: k.update_auxiliary_data(I.D, dem)
        snap = [(list(k.route), enc(k.cost, I.s), enc(k.demand, sd_of(I))) for k in rd]
        pos = x.get("pos", False)
        if op in ("2optstar", "1point", "2point", "chain"):
            f = getattr(IE, "do_%s_move" % op)
            kind, v = call(f, *(list(rd)+[I.D, dem, I.C, I.L, S, b]), cpu=20)
            nres = len(rs)
        elif op == "insert":
            cs = list(x["cs"])
            if x["form"] == "int": what = cs[0]
            elif x["form"] == "list": what = cs
            else: what = mk([[0]+cs+[0]], I.D, dem)[0]
            kind, v = call(IE.do_insert_move, what, rd[0], I.D, dem, I.C, I.L, S, b, cpu=20)
            nres = 2
        else:
            gone = mk([[0]+list(x["cs"])+[0]], I.D, dem)[0]
            recv = rd[0] if x["form"] == "single" else rd
            kind, v = call(IE.do_redistribute_move, gone, recv, I.D, dem, I.C, I.L, S, b, x["level"], cpu=60)
            if list(gone.route) != [0]+list(x["cs"])+[0]: q["inmut"] = True
            nres = len(rs)+1
        after = [(list(k.route), enc(k.cost, I.s), enc(k.demand, sd_of(I))) for k in rd]
    if after != snap or not (D0 == I.D).all(): q["inmut"] = True
    if kind != "ret":
        q["out"] = "exc"; q["msg"] = str(v); return q
    try:
        v = tuple(v)
        if all(e is None for e in v): q["out"] = "none"; return q
        new, delta = v[:-1], v[-1]
        q["delta"] = enc(delta, I.s)
        if op in ("2opt", "3opt", "relocate", "exchange", "3optstar"):
            q["new"] = [enc_route(e) for e in new]
        else:
            q["new"] = [enc_route(e.route) for e in new]
            q["cost"] = [enc(e.cost, I.s) for e in new]
            q["dem"] = [enc(e.demand, sd_of(I)) if e.demand is not None else BADNUM for e in new]
        q["out"] = "move" if all(e is not None for e in q["new"]) else "malformed"
        if q["out"] == "malformed": q["new"] = []
    except Exception as e:
        q["out"] = "malformed"; q["msg"] = repr(e)[:100]; q["new"] = []
    return q

# ---------------------------------------------------------------- inputs
def bounds(r, scale=10):
    return r.choice([None, None, None, -1, -r.randint(1, scale), r.randint(1, scale)])

def tiny_matrix(n, ent):
    M = [[0]*(n+1) for _ in range(n+1)]
    it = iter(ent)
    for i in range(n+1):
        for j in range(i): M[i][j] = M[j][i] = next(it)
    return M

def tiny(n, ent, di, Ci, Li, r):
    I = Inst(); I.pts = []; I.seed = 0; I.kind = "tiny"; I.ewt = "EXPLICIT"; I.n = n; I.s = 1
    I.Di = tiny_matrix(n, ent); I.di = [0]+list(di)[:n]; I.Ci, I.Li = Ci, Li
    return finish_inst(I, 1, 1, None)

def jobs_intra(ctx):
    r = ctx.rng("intra"); out = []; insts = []
    ops = ["2opt", "3opt", "relocate", "exchange"]
    # every symmetric matrix over {0,1,2} on 3 customers and {1,3} on 4
    ex = [(3, e) for e in itertools.product((0, 1, 2), repeat=6)] + \
         [(4, e) for e in itertools.product((1, 3), repeat=10)]
    for n, e in ex:
        I = tiny(n, e, [1]*n, 0, 0, r); insts.append(I)
        for op in (ops if ctx.tier == "thorough" else r.sample(ops, 2)):
            for st in ("FIRST", "BEST") if ctx.tier == "thorough" else (r.choice(["FIRST", "BEST"]),):
                out.append((op, I, len(insts)-1, [list(range(1, n+1))], st, None, {}))
    ctx.notes["exhaustive_matrices"] = len(ex)
    for k in range(ctx.n(1500, 12000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 7] + ([9, 11] if ctx.tier == "thorough" else [8]))
        I = base(r, n, seed=k); insts.append(I)
        cs = list(range(1, n+1)); r.shuffle(cs)
        cs = cs[:r.choice([n, n, n, max(1, n-2)])]
        for op in ops:
            out.append((op, I, len(insts)-1, [cs], r.choice(["FIRST", "BEST", "BEST"]), bounds(r), {}))
    for k in range(ctx.n(90, 900)):                  # long routes
        n = r.choice([10, 12, 13, 15, 18, 24]); I = base(r, n, seed=k); insts.append(I)
        cs = list(range(1, n+1)); r.shuffle(cs)
        if r.random() < .5:                          # nearly good ones, where few moves are left
            cs = [cs[0]]; left = set(range(1, n+1))-set(cs)
            while left: c = min(left, key=lambda x: (I.Di[cs[-1]][x], x)); cs.append(c); left.discard(c)
        for op in ops:
            if op != "3opt" or n <= 13: out.append((op, I, len(insts)-1, [cs], r.choice(["FIRST", "BEST", "BEST"]), bounds(r), {}))
    return insts, out

def jobs_inter(ctx):
    r = ctx.rng("inter"); out = []; insts = []
    ex = list(itertools.product((0, 1, 2), repeat=6)) + list(itertools.product((1, 2), repeat=10))
    for e in ex:
        n = 3 if len(e) == 6 else 4
        rs = [[1, 2], [3]] if n == 3 else [[1, 2], [3, 4]]
        I = tiny(n, e, [1, 2, 1, 2], 0, 0, r); limits_for(r, I, rs, .5, .5); insts.append(I)
        for op in ["2optstar", "1point", "2point"] if ctx.tier == "thorough" else [r.choice(["2optstar", "2optstar", "1point", "2point"])]:
            for st in ("FIRST", "BEST") if ctx.tier == "thorough" else (r.choice(["FIRST", "BEST"]),):
                out.append((op, I, len(insts)-1, rs, st, None, {}))
    ctx.notes["exhaustive_matrices"] = len(ex)
    for k in range(ctx.n(2000, 14000)):
        n = r.choice([2, 3, 4, 5, 6, 7, 8])
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit", "mixed"]))
        kk = min(n, r.choice([2, 2, 3]))
        if kk < 2: continue
        rs = split(r, range(1, n+1), kk)
        limits_for(r, I, rs); insts.append(I)
        for op in ["2optstar", "1point", "2point"]:
            p = rs[:2] if r.random() < .5 else rs[:2][::-1]
            out.append((op, I, len(insts)-1, p, r.choice(["FIRST", "BEST"]), bounds(r),
                        dict(aux=r.random() < .3, dem=r.random() < .7)))
        if kk == 3:
            p = list(rs); r.shuffle(p)
            for st in ("FIRST", "BEST"):
                out.append(("chain", I, len(insts)-1, p, st, bounds(r), dict(dem=r.random() < .7)))
    for k in range(ctx.n(90, 900)):                  # long routes
        n = r.choice([12, 15, 18, 24]); I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "mixed"]))
        rs = split(r, range(1, n+1), r.choice([2, 3])); limits_for(r, I, rs); insts.append(I)
        for op in ["2optstar", "1point", "2point"]:
            out.append((op, I, len(insts)-1, rs[:2], r.choice(["FIRST", "BEST"]), bounds(r), dict(aux=r.random() < .3, dem=r.random() < .7)))
        if len(rs) == 3 and n <= 18: out.append(("chain", I, len(insts)-1, rs, r.choice(["FIRST", "BEST"]), bounds(r), dict(dem=r.random() < .7)))
    return insts, out

def jobs_insert(ctx):
    r = ctx.rng("ins"); out = []; insts = []
    for k in range(ctx.n(3000, 20000)):
        n = r.choice([2, 3, 4, 5, 6, 7])
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit", "mixed"]))
        rs = split(r, range(1, n+1), min(n, r.choice([2, 2, 3, 4])))
        gone = r.randrange(len(rs)); cs = rs[gone][:3 if ctx.tier == "quick" else 4]
        recv = [x for j, x in enumerate(rs) if j != gone][:3]
        limits_for(r, I, recv, .6, .6)
        if r.random() < .6:        # room for the inserted
            if I.Ci: I.Ci += r.choice([1, 2, rl(I, cs)])
            if I.Li: I.Li += r.choice([1, 3, rc(I, cs)])
            limit(I, I.Ci, I.Li)
        insts.append(I); idx = len(insts)-1
        if r.random() < .1: recv = [[]]+recv[1:]
        if not (recv[0] == [] and not I.L):
            for st in ("FIRST", "BEST"):
                form = r.choice(["int", "list", "rd"])
                use = cs[:1] if form == "int" or r.random() < .4 else cs
                b = r.choice([None, None, r.randint(0, 2*max(1, max(I.Di[0])))])
                if form != "int" and r.random() < .05 : form = "list"
                out.append(("insert", I, idx, [recv[0]], st, b, dict(form=form, cs=use)))
        lv = r.choice([0, 0, 1, 2, 3])
        if len(recv) and all(recv):
            form = "single" if len(recv) == 1 and r.random() < .5 else "list"
            b = r.choice([None, None, r.randint(1, 2*max(1, max(I.Di[0])))])
            out.append(("redistribute", I, idx, recv, r.choice(["FIRST", "BEST", "BEST"]), b, dict(form=form, cs=cs, level=lv)))
    return insts, out

def jobs_3optstar(ctx):
    r = ctx.rng("3os"); out = []; insts = []
    for e in itertools.product((0, 1, 3), repeat=6):
        I = tiny(3, e, [1, 2, 1], 0, 0, r)
        rs = r.choice([[[1, 2], [3]], [[1], [2, 3]], [[1], [2], [3]]])
        limits_for(r, I, rs, .6, .5); insts.append(I)
        out.append(("3optstar", I, len(insts)-1, rs, r.choice(["FIRST", "BEST"]), None, {}))
    ctx.notes["exhaustive_matrices"] = 729
    for k in range(ctx.n(1600, 12000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit", "mixed"]))
        rs = split(r, range(1, n+1), min(n, r.choice([1, 2, 2, 3, 3, 4, 5])))
        limits_for(r, I, rs, .65, .55); insts.append(I)
        for st in ("FIRST", "BEST"):
            out.append(("3optstar", I, len(insts)-1, rs, st, bounds(r), {}))
    for k in range(ctx.n(60, 600)):                  # larger plans
        n = r.choice([9, 10, 12]); I = base(r, n, seed=k, dem=r.choice(["small", "unit", "mixed"]))
        rs = split(r, range(1, n+1), r.choice([2, 3, 4])); limits_for(r, I, rs, .65, .5); insts.append(I)
        out.append(("3optstar", I, len(insts)-1, rs, r.choice(["FIRST", "BEST"]), bounds(r), {}))
    # several routes to cut through at once
    for k in range(ctx.n(2000, 15000)):
        n = r.choice([5, 6, 6])
        I = base(r, n, seed=k, dem=r.choice(["small", "unit"]))
        rs = split(r, range(1, n+1), 3); limits_for(r, I, rs, .5, .2); insts.append(I)
        out.append(("3optstar", I, len(insts)-1, rs, "BEST", None, {}))
    # plans at which the operator itself stops: only there its rarest exchanges can be missed
    ends = pmap(descend, [(r.randrange(10**9), k) for k in range(ctx.n(600, 8000))], chunksize=20)
    for I, rs in ends:
        if rs: insts.append(I); out.append(("3optstar", I, len(insts)-1, rs, "BEST", None, {}))
    ctx.notes["plans_where_the_operator_stopped"] = len([1 for _, rs in ends if rs])
    return insts, out

def descend(j):
    with quiet():
        from verypy.local_search import LSOPT
        from verypy.local_search.solution_operators import do_3optstar_move
    r = random.Random(j[0]); n = r.choice([3, 4, 5, 6, 7])
    I = base(r, n, seed=j[1], dem=r.choice(["small", "unit", "mixed"]))
    rs = split(r, range(1, n+1), min(n, r.choice([2, 3, 3, 4, 5])))
    limits_for(r, I, rs, .65, .35)
    st = r.choice([LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT])
    t = [0]+[x for q in rs for x in list(q)+[0]]
    for _ in range(60):
        kind, v = call(do_3optstar_move, t, I.D, I.d, I.C, I.L, st, None, cpu=30)
        if kind != "ret" or v[0] is None: break
        new = [int(x) for x in v[0]]
        if sorted(x for x in new if x) != list(range(1, n+1)): break
        t = new
    else: return I, None
    out = [[]]
    for x in t:
        if x: out[-1].append(x)
        elif out[-1]: out.append([])
    rs = [q for q in out if q]
    if any(I.Ci and sum(I.di[x] for x in q) > I.Ci for q in rs): return I, None      # wrong plans are reported by the other records
    if I.Li and any(sum(I.Di[a][b] for a, b in zip([0]+q, q+[0])) > I.Li for q in rs): return I, None
    return I, rs

JOBS = {"C07": jobs_intra, "C08": jobs_inter, "C09": jobs_insert, "C10": jobs_3optstar}

def chunks(xs, k):
    return [xs[i:i+k] for i in range(0, len(xs), k)]

def run_jobs(js): return [call_op(j) for j in js]

def main(prop):
    ctx = Ctx(prop)
    insts, jobs = JOBS[prop](ctx)
    recs = [q for part in pmap(run_jobs, chunks(jobs, 40)) for q in part]
    ctx.log("ran %d operator calls" % len(recs))
    by = {}
    for q in recs: by[q["op"]+"/"+q["out"]] = by.get(q["op"]+"/"+q["out"], 0)+1
    ctx.notes["calls"] = by
    light = [{k: v for k, v in q.items() if k not in ("msg",)} for q in recs]
    bad = judge(ctx, "MoveTrace", light, files={"VINST": [I.tla() for I in insts]}, label=prop)
    ctx.violations = []; ctx.known = []
    for idx, c in bad:
        q = dict(recs[idx]); q["inst"] = insts[q["i"]-1].brief()
        ctx.violation(c, q, q["op"])
    for q in recs[:3]: ctx.sample(dict(q, inst=insts[q["i"]-1].brief()))
    ctx.finish(assumptions=["symmetric distances; input routes within the limits; exact (integer or dyadic) arithmetic"])
