# -*- coding: utf-8 -*-
"""C39: the units of distances and demands, the type of the numbers and the origin of the coordinates do not matter."""
import copy
from c_build import *
from c_moves import limits_for, base, split
from heur import *
from c_search import INTRA, INTER
from c_idle import OPS

# rules that mix the units: Tyagi's penalty multiplies the free capacity with a distance, lr3o's multipliers weigh loads and lengths
# together.  The assignment heuristic and the bounding method leave ties to the solver, which may break them in another way.
MIXES = {"ty", "lr3o"}
SOLVER = {"gap", "mbsa", "ptl"}
METHODS = [ab for ab in ALL if ab not in MIXES and ab not in SOLVER]
KINDS = METHODS + ["ty", "lr3o"]
FACT = [(1, 1024), (1, 64), (1, 4), (1, 2), (2, 1), (4, 1), (16, 1)]
TINY = (1, 4096)

def number(x, s, f, fl):
    """the integer x in units of 1/s, times f, as the user would give it"""
    a, b = x*f[0], s*f[1]
    return a//b if a % b == 0 and not fl else a/float(b)

def scaled(I, fd, fq, fl=False, move=(0, 0)):
    """the instance with distances times fd and demands times fq, as floats or where possible integers"""
    import numpy as np
    J = copy.copy(I); sd = sd_of(I)
    rows = [[number(x, I.s, fd, fl) for x in row] for row in I.Di]
    J.D = np.array(rows, dtype=float) if any(isinstance(x, float) for row in rows for x in row) else np.array(rows)
    J.L = number(I.Li, I.s, fd, fl) if I.Li else None
    J.d = [number(x, sd, fq, fl) for x in I.di]; J.C = number(I.Ci, sd, fq, fl) if I.Ci else None
    J.pts = [((x+move[0])*fd[0]/float(fd[1]), (y+move[1])*fd[0]/float(fd[1])) for x, y in I.pts]
    return J
def search(I, j):
    from verypy.local_search import do_local_search, LSOPT, ITEROPT
    from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE, solution_operators as SO
    ws = [getattr(IA if o in INTRA else IE, "do_%s_move" % o) for o in j["ops"]]
    t = [0]
    for x in j["rs"]: t += list(x)+[0]
    st = LSOPT.BEST_ACCEPT if j["best"] else LSOPT.FIRST_ACCEPT
    if j["what"] == "3opt*":
        kind, v = call(SO.do_3optstar_move, t, I.D, I.d, I.C, I.L, st, cpu=20)
        if kind == "ret": v = v[0] if v[0] is not None else t
    else: kind, v = call(do_local_search, ws, t, I.D, I.d, I.C, I.L, st, getattr(ITEROPT, j["it"]), cpu=20)
    return outcome(kind, v)

def tour(I, j):
    """a tour solver on all stops, closed by it or by us"""
    import verypy.tsp_solvers.tsp_solver_ropt as R
    f = getattr(R, j["solver"])
    kind, v = call(f, I.D, list(range(I.n+1)), cpu=20)
    if kind != "ret": return outcome(kind, v)
    return outcome("ret", [int(c) for c in v[0]])

def run(J, j):
    if j["what"] in ("search", "3opt*"): return search(J, j)+("",)
    if j["what"] == "tour": return tour(J, j)+("",)
    q = run_heur(j["what"], J, j["single"], j["mk"])
    return q["out"], q["sol"], q["msg"]

def one(j):
    """the instance as it is, and in other units"""
    I = j["I"]; a = run(scaled(I, (1, 1), (1, 1)), j); recs = []
    for k, c in enumerate(j["ch"]):
        b = run(scaled(I, c["fd"], c["fq"], c["fl"], c["move"]), j)
        recs.append(dict(i=j["idx"]+1, fd=list(c["fd"]), fq=list(c["fq"]), out=[a[0], b[0]], sol=[x[1] if x[0] == "plan" else [] for x in (a, b)],
                         what=j["what"], key=j["what"], floats=c["fl"], move=list(c["move"]), single=j.get("single", False), mk=j.get("mk", False),
                         ops=j.get("ops", []), msg=a[2] or b[2]))
    return recs
def many(js): return [q for j in js for q in one(j)]

def changes(r, ab):
    """the units of the other copies"""
    move = lambda: (r.randint(-300, 300), r.randint(-300, 300))
    out = []
    if ab not in MIXES:
        out.append(dict(fd=TINY, fq=(1, 1)))
        out.append(dict(fd=(1, 1), fq=TINY))
        if r.random() < .5: out.append(dict(fd=r.choice(FACT), fq=r.choice(FACT+[(1, 1)]), fl=r.random() < .3, move=move() if r.random() < .3 else (0, 0)))
    if r.random() < .5: out.append(dict(fl=True))
    if r.random() < .5 and ab != "": out.append(dict(move=move(), fl=r.random() < .3))
    return [dict(dict(fd=(1, 1), fq=(1, 1), fl=False, move=(0, 0)), **c) for c in out]

def jobs(ctx, scale=1.):
    r = ctx.rng("units"); insts = []; jobs = []
    def put(I, j):
        insts.append(I); j.update(I=I, idx=len(insts)-1); jobs.append(j)
    for k in range(int(ctx.n(260, 1500)*scale)):
        for ab in KINDS:
            n = r.choice([2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 10, 12, 12, 14, 16])
            while not size_ok(ab, n): n = r.randint(2, 9)
            I = gen_inst(r, n, kinds=["euc", "ceil", "man", "dyadic", "metric", "explicit"], coords=True, seed=k, grid=r.choice([10, 20, 60, 100, 300]))
            put(I, dict(what=ab, single=r.random() < .3, mk=r.random() < .4 and ab not in NO_K, ch=changes(r, ab)))
    for k in range(int(ctx.n(3000, 20000)*scale)):
        n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12])
        I = base(r, n, seed=k); rs = split(r, range(1, n+1), r.randint(1, min(n, 4))); limits_for(r, I, rs, .7, .5)
        put(I, dict(what="3opt*" if k % 5 == 0 else "search", rs=rs, ops=r.sample(OPS, r.choice([1, 1, 1, 2, 3])), best=r.random() < .5,
                    it=r.choice(["FIRST_ACCEPT", "BEST_ACCEPT", "ALL_ACCEPT", "REPEATED_ACCEPT"]), ch=changes(r, "")))
    for k in range(int(ctx.n(600, 4000)*scale)):
        I = gen_inst(r, r.choice([2, 3, 4, 5, 6, 8, 10]), kinds=["euc", "ceil", "man", "dyadic", "metric", "explicit"], coords=True, seed=k, C="none", L="none")
        put(I, dict(what="tour", solver=r.choice(["solve_tsp_2opt", "solve_tsp_3opt", "solve_tsp_ropt"]), ch=changes(r, "")))
    return insts, jobs

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "UnitsMC", "UnitsMC.cfg" if ctx.tier == "quick" else "UnitsMC_big.cfg")
    with quiet(): have = set(preload(KINDS))
    insts, js = jobs(ctx)
    js = [j for j in js if j["what"] in have or j["what"] in ("search", "3opt*", "tour")]
    recs = [q for part in pmap(many, chunks(js, 10)) for q in part]
    ctx.log("ran %d pairs" % len(recs))
    light = [{k: q[k] for k in ("i", "fd", "fq", "out", "sol")} for q in recs]
    res = tlc(ctx, "UnitsTrace", files={"VINST": [I.tla() for I in insts], "VTRACE": light}, expect_states=2*len(recs))
    bad = sorted(set(res["bad"]))
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["what"]] = kinds.get(q["what"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d pairs, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["factors are powers of two and coordinates move by whole numbers, so that the arithmetic of both copies is exact in the same way",
                            "numbers stay far above the tolerance of 1e-10", "exempt: units in the Tyagi and LR3OPT heuristics (their penalties add loads to lengths); methods that leave ties to the MIP solver"])
