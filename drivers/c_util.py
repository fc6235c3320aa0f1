# -*- coding: utf-8 -*-
"""C26 ordered set, C27 random instance generation."""
from c_moves import *

# ---------------------------------------------------------------- C26
def apply_op(ods, o, r=None):
    k, x = o["k"], o["x"]
    if k == "add": ods.add(x); return []
    if k == "del":
        try: ods.remove(x); return []
        except KeyError: return [-1]
    if k == "diff":
        c = o["s"]
        ods.difference_update(set(c) if r is not None and r.random() < .3 else (tuple(c) if r is not None and r.random() < .5 else list(c)))
        return []
    if k == "get":
        try: return [int(ods[x])]
        except IndexError: return [-1]
    if k == "iter": return [int(y) for y in ods]
    if k == "len": return [len(ods)]
    if k == "in": return [1 if x in ods else 0]
    raise AssertionError(k)

def O(k, x=0, s=()): return dict(k=k, x=x, s=list(s))

def hist(job):
    with quiet(): from verypy.util import OrderedDictSet
    res = []
    for start, ops, salt in job:
        r = random.Random(salt) if salt is not None else None
        q = dict(start=start, ops=ops, rets=[], out="ret", msg="")
        def run():
            if not start and (r is None or r.random() < .5): s = OrderedDictSet()
            elif r is not None and r.random() < .3: s = OrderedDictSet(tuple(start))
            else: s = OrderedDictSet(start)
            return [apply_op(s, o, r) for o in ops]
        a, v = call(run, cpu=10)
        if a == "ret": q["rets"] = v
        else: q["out"] = "exc"; q["msg"] = str(v)
        res.append(q)
    return res

def c26(ctx):
    mc(ctx, "OrderedSetMC", "OrderedSetMC.cfg")
    outp = os.path.join(ctx.tmp, "hist.json")
    tlc(ctx, "OrderedSetGen", env=dict(OUT=outp, DEPTH=ctx.n(3, 4)), heap="8g")
    starts, hists = json.load(open(outp))
    starts = [list(s) for s in starts]
    ctx.notes["tlc_generated_histories"] = len(starts)*len(hists)
    fin = [O("len"), O("get", 0), O("get", 1), O("get", 2), O("get", -1), O("get", -2), O("iter"), O("in", 1)]
    jobs = [(s, list(h)+fin, None) for s in starts for h in hists]
    # two operations after a warmed-up index list and a removal, all combinations
    r = ctx.rng("hist")
    for k in range(ctx.n(3000, 40000)):
        m = r.choice([2, 4, 8, 12]); start = [r.randint(1, m) for _ in range(r.choice([0, 0, 1, 3, 6]))]
        ops = []
        for _ in range(r.choice([6, 15, 40])):
            y = r.random()
            if y < .3: ops.append(O("add", r.randint(1, m)))
            elif y < .45: ops.append(O("del", r.randint(1, m)))
            elif y < .55: ops.append(O("diff", 0, [r.randint(1, m) for _ in range(r.randint(0, 3))]))
            elif y < .85: ops.append(O("get", r.randint(-m-1, m)))
            elif y < .9: ops.append(O("len"))
            elif y < .95: ops.append(O("in", r.randint(1, m)))
            else: ops.append(O("iter"))
        jobs.append((start, ops+fin, k))
    recs = [q for part in pmap(hist, chunks(jobs, 500)) for q in part]
    light = [{k: v for k, v in q.items() if k != "msg"} for q in recs]
    bad = judge(ctx, "OrderedSetTrace", light, label="C26", chunk=40000)
    ctx.violations = []
    for i, c in bad: ctx.violation(c, recs[i], "")
    for q in recs[-2:]: ctx.sample(q)
    ctx.finish(assumptions=["elements are hashable; indices are integers"])

# ---------------------------------------------------------------- C27
def gens(job):
    with quiet(): from verypy.cvrp_io import generate_CVRP
    import numpy as np
    res = []
    for n, C, mu, sd, regular, R, seed in job:
        random.seed(seed); np.random.seed(seed % 2**31)
        kw = {} if R == 200 and seed % 2 else dict(R=float(R))
        q = dict(n=n, C=C, regular=regular, R=R, scale=1, out="ret", msg="", size=-1, cap=-1, dlo=[], dhi=[], pts=[], D=[], isint=False, args=[mu, sd, seed])
        a, v = call(generate_CVRP, n, C, mu, sd, regular, cpu=10, **kw)
        if a != "ret": q["out"] = "exc"; q["msg"] = str(v); res.append(q); continue
        try:
            mx = max([1.0]+[abs(float(c)) for p in v.coordinate_points for c in p])
            s = 1
            while s*2*mx <= 8000 and s < 1024: s *= 2
            q["scale"] = s
            q["pts"] = [[int(round(s*float(p[0]))), int(round(s*float(p[1])))] for p in v.coordinate_points]
            q["size"] = int(v.size); q["cap"] = int(v.capacity_constraint) if v.capacity_constraint == C else -1
            ds = [float(x) for x in v.customer_demands]
            q["dlo"] = [int(math.floor(1024*x)) for x in ds]; q["dhi"] = [int(math.ceil(1024*x)) for x in ds]
            D = v.distance_matrix
            q["isint"] = bool(np.all(np.asarray(D) == np.asarray(D).astype(int)))
            q["D"] = [[int(x) for x in row] for row in D]
        except Exception as e: q["out"] = "malformed"; q["msg"] = repr(e)
        res.append(q)
    return res

def c27(ctx):
    r = ctx.rng("gen"); jobs = []
    for k in range(ctx.n(1500, 20000)):
        n = r.choice([1, 1, 2, 3, 5, 8, 12, 20]) if r.random() < .97 else 60
        C = r.choice([1, 2, 5, 10, 100, 1000]); mu = r.choice([0, 1, C/4., C/2., float(C), 2.*C]); sd = r.choice([0, .5, C/4., C, 3.*C])
        jobs.append((n, C, mu, sd, r.random() < .3, r.choice([200, 200, 5, 20, 50]), r.randrange(10**9)))
    recs = [q for part in pmap(gens, chunks(jobs, 100)) for q in part]
    light = [{k: v for k, v in q.items() if k not in ("msg", "args")} for q in recs]
    bad = judge(ctx, "GenTrace", light, label="C27")
    ctx.violations = []
    for i, c in bad: ctx.violation(c, recs[i], "")
    for q in recs[-2:]: ctx.sample(q)
    ctx.finish(assumptions=["capacity at least one; coordinates are compared after rounding to 1/scale of a unit"])

def main(prop): {"C26": c26, "C27": c27}[prop](Ctx(prop))
