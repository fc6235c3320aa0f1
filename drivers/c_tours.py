# -*- coding: utf-8 -*-
"""C30: the tour solvers that ask an external program, driven with a stand-in for the program."""
import stat, glob, math, json, sys
from heur import *
from vlib import _np
HERE = os.path.dirname(os.path.abspath(__file__))

def install(home):
    """the programs where verypy/config.py looks for them, below a home directory of our own"""
    os.environ["HOME"] = home
    from verypy import config
    for p in (config.LKH_EXE_PATH, config.ACOTSP_EXE_PATH):
        if not p.startswith(home+os.sep): raise TLCError("the programs are not looked for below $HOME: "+p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write("#!/bin/sh\nexec %s -I -S %s \"$@\"\n" % (sys.executable, os.path.join(HERE, "fake_tsp.py")))
        os.chmod(p, 0o755)

def one(j):
    I, sel, how = j["I"], list(j["sel"]), j["how"]; np = _np()
    from verypy.config import LKH_EXACT_DISTANCES_PRECISION_DECIMALS as LA, ACOTSP_EXACT_DISTANCES_PRECISION_DECIMALS as AA
    q = dict(i=j["idx"]+1, sel=sel, file=[], reply=[], got=[], cost=0, acc=0, s=I.s, out="tour", clean=True, exact=False, tol=0, key=how, msg="")
    D = I.D.copy()
    W = tempfile.mkdtemp(); T = os.path.join(W, "t"); os.mkdir(T)
    os.environ["FAKE_LOG"] = os.path.join(W, "log"); os.environ["FAKE_MODE"] = j["mode"]; tempfile.tempdir = T
    try:
        acc = j["acc"]; k = {} if acc is None else dict(float_accuracy=acc)
        if how == "lkh":
            from verypy.tsp_solvers.tsp_solver_lkh import solve_tsp_lkh as f
            if j["runs"]: k["num_runs"] = j["runs"]
            acc = acc or LA
        elif how == "aco":
            from verypy.tsp_solvers.tsp_solver_acotsp import solve_tsp_acotsp as f
            if j["runs"]: k["use_ants"] = True
            acc = acc or AA
        elif how == "gurobi":
            from verypy.tsp_solvers.tsp_solver_gurobi import solve_tsp_gurobi as f
            k = {}; q["exact"] = True
        else:
            from verypy.tsp_solvers.tsp_solver_fast import solve_tsp_fast as f
            k = {}; acc = LA; q["exact"] = 5 <= len(sel) < 20
        kind, v = call(f, D, list(sel), cpu=60, **k)
        q["clean"] = not os.listdir(T) and bool((D == I.D).all())
        if os.path.exists(os.environ["FAKE_LOG"]):
            l = json.load(open(os.environ["FAKE_LOG"])); q["file"], q["reply"] = l["M"], l["t"]
            q["acc"] = int(acc) if D.dtype.kind == "f" else 0
        if kind == "hang": q["out"] = "did not terminate"
        elif kind != "ret": q["out"] = "failed with an error"; q["msg"] = str(v)
        else:
            try: q["got"] = [int(x) for x in v[0]]; q["cost"] = int(round(float(v[1])*I.s*1000))
            except Exception: q["out"] = "result is not a tour with its cost"; q["msg"] = repr(v)[:100]
        if "size-limited license" in q["msg"]: return None
    finally:
        tempfile.tempdir = None; shutil.rmtree(W, ignore_errors=True)
    return q

def cli(how, path):
    """the command line of a tour solver -> what it printed"""
    import io, contextlib
    from verypy.shared_cli import tsp_cli
    mod = __import__("verypy.tsp_solvers.tsp_solver_"+how, fromlist=["x"]); f = getattr(mod, "solve_tsp_"+how)
    o = io.StringIO(); old = sys.argv; sys.argv = ["tsp_solver_%s.py" % how, path]
    try:
        with contextlib.redirect_stdout(o): tsp_cli(how, f)
    finally: sys.argv = old
    return o.getvalue()

def cli_one(j):
    """a TSPLIB file solved on the command line of a tour solver"""
    I, n = j["I"], j["I"].n
    q = dict(i=j["idx"]+1, sel=list(range(n+1)), file=[], reply=[], got=[], cost=0, acc=0, s=I.s, out="tour", clean=True, exact=j["exact"], tol=j["tol"], key="cli/"+j["how"], msg="")
    W = tempfile.mkdtemp(); T = os.path.join(W, "t"); os.mkdir(T)
    os.environ.pop("FAKE_LOG", None); os.environ["FAKE_MODE"] = "good"; tempfile.tempdir = T
    try:
        with open(os.path.join(W, "p.tsp"), "w") as f: f.write(j["text"])
        kind, v = call(cli, j["how"], os.path.join(W, "p.tsp"), cpu=60)
        q["clean"] = not os.listdir(T)
        if kind == "hang": q["out"] = "did not terminate"
        elif kind != "ret": q["out"] = "failed with an error"; q["msg"] = str(v)
        else:
            try:
                l = dict(x.split(":", 1) for x in v.splitlines() if x.startswith(("SOLUTION:", "COST:")))
                q["got"] = [int(x) for x in json.loads(l["SOLUTION"].replace("np.int64(", "").replace(")", ""))]; q["cost"] = int(round(float(l["COST"])*I.s*1000))
            except Exception: q["out"] = "result is not a tour with its cost"; q["msg"] = repr(v)[:200]
        if "size-limited license" in q["msg"]: return None
    finally:
        tempfile.tempdir = None; shutil.rmtree(W, ignore_errors=True)
    return q

def cli_jobs(ctx, r, first):
    insts = []; jobs = []
    for k in range(ctx.n(250, 2500)):
        how = r.choice(["ropt", "ropt", "gurobi", "fast", "lkh", "acotsp"])
        n = r.randint(2, 7) if how == "gurobi" else r.choice([2, 3, 4, 5, 6, 8, 11])
        I = gen_inst(r, n=n, seed=k, L="none", C="none", coords=True, kinds=["euc", "man"], grid=60); tol = 0
        if r.random() < .5:                       # real distances: judged to three decimals
            I.pts = [(round(x+r.random(), 3), round(y+r.random(), 3)) for x, y in I.pts]
            I.s = 1000; I.ewt = "EXACT_2D"; tol = 1000*(n+1)
            I.Di = [[int(round(1000*math.hypot(a[0]-b[0], a[1]-b[1]))) for b in I.pts] for a in I.pts]
        t = "NAME : t\nTYPE : TSP\nDIMENSION : %d\n" % (n+1)
        if tol or r.random() < .5:
            t += "EDGE_WEIGHT_TYPE : %s\nNODE_COORD_SECTION\n" % I.ewt + "".join("%d %r %r\n" % (a+1, x, y) for a, (x, y) in enumerate(I.pts))
        else: t += "EDGE_WEIGHT_TYPE : EXPLICIT\nEDGE_WEIGHT_FORMAT : FULL_MATRIX\nEDGE_WEIGHT_SECTION\n" + "".join(" ".join(map(str, x))+"\n" for x in I.Di)
        insts.append(I); jobs.append(dict(I=I, idx=first+k, how=how, text=t+"EOF\n", tol=tol, exact=not tol and how in ("gurobi", "fast") and 4 <= n <= 7))
    return insts, jobs

def heur_one(j):
    i, I, ab, single, mk = j
    os.environ["FAKE_MODE"] = "good"; os.environ.pop("FAKE_LOG", None)
    T = tempfile.mkdtemp(); tempfile.tempdir = T
    try: q = run_heur(ab, I, single, mk, cpu=120)
    finally: tempfile.tempdir = None; shutil.rmtree(T, ignore_errors=True)
    q["i"] = i+1; q["key"] = ab
    return q

def main(prop):
    ctx = Ctx(prop)
    home = os.path.join(ctx.tmp, "home"); os.mkdir(home); install(home)
    mc(ctx, "ToursMC", "ToursMC.cfg")
    names = preload(["cmt", "rfcs", "ty"]+GUR+SLOW)
    r = ctx.rng("tours"); insts = []; jobs = []
    for k in range(ctx.n(1500, 12000)):
        how = r.choice(["lkh", "lkh", "aco", "aco", "gurobi", "fast"])
        n = r.choice([1, 2, 3, 4, 5, 6, 7]) if how == "gurobi" else r.choice([1, 2, 3, 4, 5, 6, 8, 12, 22])
        if how == "fast": n = r.choice([1, 3, 4, 5, 6, 7, 21, 24])
        I = gen_inst(r, n=n, seed=k, L="none", C="none", grid=r.choice([4, 10, 40, 100]))
        sel = [0]+list(range(1, n+1))
        if r.random() < .5: sel = sel[1:]; r.shuffle(sel); sel = [0]+sel
        if r.random() < .4: sel = [0]+r.sample(range(1, n+1), r.randint(1, n))
        if how != "fast" and r.random() < .15 and len(sel) > 2: sel = sel[1:]           # a tour of customers only
        elif r.random() < .15 and how == "lkh": r.shuffle(sel)
        if how == "fast" and 9 < len(sel) < 20: sel = sel[:8]
        insts.append(I)
        jobs.append(dict(I=I, idx=k, sel=sel, how=how, mode=r.choice(["good", "perm:%d" % r.randrange(10**6)]), acc=r.choice([None, None, 10.0, 100]), runs=r.choice([None, None, 1, 3])))
    recs = [q for q in pmap(one, jobs) if q is not None]
    ci, cj = cli_jobs(ctx, ctx.rng("cli"), len(insts)); insts += ci
    cr = [q for q in pmap(cli_one, cj) if q is not None]; recs += cr
    ctx.notes["command_lines"] = len(cr)
    ctx.notes["calls"] = {h: sum(q["key"] == h for q in recs) for h in ("lkh", "aco", "gurobi", "fast")}
    ctx.notes["program_consulted"] = sum(q["file"] != [] for q in recs)
    ctx.log("%d calls, program consulted in %d" % (len(recs), ctx.notes["program_consulted"]))
    keep = ("i", "sel", "file", "reply", "got", "cost", "acc", "s", "out", "clean", "exact", "tol")
    light = [{k: q[k] for k in keep} for q in recs]
    res = tlc(ctx, "ToursTrace", files={"VTRACE": light, "VINST": [I.tla() for I in insts]})
    bad = sorted(set(res["bad"]))
    if not bad and res["states"] != sum(3+len(q["reply"]) for q in recs): raise TLCError("not every line was read")
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    for q in recs[:3]: ctx.sample({k: q[k] for k in ("key", "sel", "reply", "got", "cost", "s")})
    # the heuristics that use such a program when there is one
    hin = []; items = []
    for k in range(ctx.n(90, 900)):
        I = gen_inst(r, n=r.choice([3, 4, 5, 6, 7, 9]), coords=True, seed=k); hin.append(I)
        for ab in names:
            if size_ok(ab, I.n) and r.random() < (.25 if ab in GUR+SLOW else .8): items.append((k, I, ab, r.random() < .5, r.random() < .3))
    hrecs = pmap(heur_one, items); ctx.log("%d heuristic calls" % len(hrecs))
    os.environ["VMODE"] = "all"; before = (len(ctx.violations), ctx.states)
    hl = [dict(i=q["i"], out=q["out"], sol=q["sol"], mut=q["mut"], mayrefuse=q["mayrefuse"]) for q in hrecs]
    v0, k0 = list(ctx.violations), list(ctx.known)
    bad = judge(ctx, "PlanTrace", hl, files={"VINST": [I.tla() for I in hin]}, label="heuristics with the program", states="any", key=None)
    ctx.violations, ctx.known = v0, k0
    for idx, c in bad:
        q = dict(hrecs[idx]); q["inst"] = hin[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.notes["heuristics_with_program"] = {a: sum(q["alg"] == a for q in hrecs) for a in names}
    ctx.finish(assumptions=["symmetric distances; the external programs are replaced by a stand-in that speaks their formats"])
