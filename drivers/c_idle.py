# -*- coding: utf-8 -*-
"""C37: a limit too large to matter changes nothing."""
import copy
from c_build import *
from c_moves import limits_for, base, split
from heur import *
from c_search import INTRA, INTER

# rules documented to look at the amount of the capacity itself: utilisation (ty), full vehicles (ptl).  The assignment
# heuristic (gap) takes its number of seeds from it, and every limit is a constraint of its solver, which may then pick another optimum.
READS_C = {"ty", "ptl"}
# Where a route cost limit is given the insert move is documented to look for a place instead of appending: Mole and Jameson's
# redistribution and Wren and Holliday's refinement use it; the latter also gives priority to loads only if there is a capacity.
READS_L = {"mj"}
METHODS = [ab for ab in ALL if ab not in ("gap", "wh")]
OPS = INTRA+INTER+["chain"]

def with_limits(I, c, l):
    J = copy.copy(I); J.Ci, J.Li = c, l; sd = sd_of(I)
    J.C = None if not c else (c if sd == 1 else c/float(sd)); J.L = None if not l else (l if I.s == 1 else l/float(I.s))
    return J

def search(I, j):
    from verypy.local_search import do_local_search, LSOPT, ITEROPT
    from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE, solution_operators as SO
    ws = [getattr(IA if o in INTRA else IE, "do_%s_move" % o) for o in j["ops"]]
    t = [0]
    for x in j["rs"]: t += list(x)+[0]
    if j["what"] == "3opt*":
        kind, v = call(SO.do_3optstar_move, t, I.D, I.d, I.C, I.L, LSOPT.BEST_ACCEPT if j["best"] else LSOPT.FIRST_ACCEPT, cpu=20)
        if kind == "ret": v = v[0] if v[0] is not None else t
    else: kind, v = call(do_local_search, ws, t, I.D, I.d, I.C, I.L, LSOPT.BEST_ACCEPT if j["best"] else LSOPT.FIRST_ACCEPT, getattr(ITEROPT, j["it"]), cpu=20)
    return outcome(kind, v)

def one(j):
    a = []
    for c, l in j["lim"]:
        J = with_limits(j["I"], c, l)
        if j["what"] in ("search", "3opt*"): a.append(search(J, j))
        else:
            q = run_heur(j["what"], J, j["single"], j["mk"])
            a.append((q["out"], q["sol"])); j["msg"] = q["msg"]
    out = [x[0] for x in a]
    return dict(i=j["idx"]+1, lim=j["lim"], out=out, sol=[x[1] if x[0] == "plan" else [] for x in a], what=j["what"], key=j["what"],
                single=j.get("single", False), mk=j.get("mk", False), ops=j.get("ops", []), msg=j.get("msg", ""))
def many(js): return [one(j) for j in js]

def pairs(r, I, noC=False, noL=False):
    """limits that differ only where both are idle or absent"""
    tot, top = max(1, sum(I.di)), max(1, (I.n+1)*max(max(x) for x in I.Di)); sd = sd_of(I)
    c0, l0 = I.Ci, I.Li
    def idle(x, step): return r.choice([x, x+r.randint(0, 3)*step, 2*x, 100*x])
    C, L = [], []
    if c0 and r.random() < .8: C.append((c0, c0))
    else: C.append((0, 0))
    if not noC: C += [(0, idle(tot, sd))]*3 + [(idle(tot, sd), 50*tot)]
    L.append((l0, l0))
    if not noL: L += [(0, idle(top, 1))]*3 + [(idle(top, 1), 20*top)]
    while True:
        c, l = r.choice(C), r.choice(L)
        if r.random() < .3: c = c[::-1]
        if r.random() < .3: l = l[::-1]
        if c[0] != c[1] or l[0] != l[1]: return [[c[0], l[0]], [c[1], l[1]]]

def jobs(ctx):
    r = ctx.rng("idle"); insts = []; jobs = []
    for k in range(ctx.n(240, 1200)):
        for ab in METHODS:
            n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16])
            while not size_ok(ab, n) or (ab == "ptl" and n > 8): n = r.randint(2, 9)
            I = gen_inst(r, n, kinds=["euc", "ceil", "man", "dyadic"] if r.random() < .8 else ["metric"], coords=True, seed=k,
                         grid=r.choice([20, 60, 100, 300]), dem=r.choice(["small", "unit", "big", "mixed", "dyadic", "zeros"]))
            insts.append(I)
            for mk in (False, True) if ab not in NO_K and ab not in GUR and r.random() < .4 else (r.random() < .5 and ab not in NO_K,):
                jobs.append(dict(I=I, idx=len(insts)-1, what=ab, lim=pairs(r, I, ab in READS_C, ab in READS_L), single=r.random() < .3, mk=mk))
    for k in range(ctx.n(300, 1500)):          # routes of three to five customers, a cost limit that does not matter
        for ab in METHODS:
            if ab in READS_L or ab in ("lr3o", "ptl", "ims"): continue
            n = r.choice([6, 7, 8, 9, 10]); I = gen_inst(r, n, kinds=["euc", "man"], coords=True, seed=k, grid=r.choice([30, 60, 100]), dem="small", C="none", L="none")
            I.Ci = r.choice([12, 12, 15, 20]); finish_inst(I, I.s, sd_of(I), r); insts.append(I); lim = [[I.Ci, 0], [I.Ci, (n+1)*max(max(x) for x in I.Di)*r.choice([1, 3, 100])]]
            if r.random() < .5: lim = lim[::-1]
            jobs.append(dict(I=I, idx=len(insts)-1, what=ab, lim=lim, single=r.random() < .2, mk=False))
    for k in range(ctx.n(6000, 40000)):
        n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12])
        I = base(r, n, seed=k); rs = split(r, range(1, n+1), r.randint(1, min(n, 4))); limits_for(r, I, rs, .7, .5); insts.append(I)
        what = "3opt*" if k % 5 == 0 else "search"
        jobs.append(dict(I=I, idx=len(insts)-1, what=what, lim=pairs(r, I), rs=rs, ops=r.sample(OPS, r.choice([1, 1, 1, 2, 3])), best=r.random() < .5,
                         it=r.choice(["FIRST_ACCEPT", "BEST_ACCEPT", "ALL_ACCEPT", "REPEATED_ACCEPT"])))
    return insts, jobs

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "IdleMC", "IdleMC.cfg" if ctx.tier == "quick" else "IdleMC_big.cfg")
    with quiet(): have = set(preload(METHODS))
    insts, js = jobs(ctx)
    js = [j for j in js if j["what"] in have or j["what"] in ("search", "3opt*")]
    recs = [q for part in pmap(many, chunks(js, 10)) for q in part]
    cut = [q for q in recs if q["what"] == "ptl" and "hang" in q["out"]]
    if len(cut) <= 3: recs = [q for q in recs if q not in cut]
    recs = [q for q in recs if not (q["what"] in GUR and "refused" in q["out"])]      # solver licence
    ctx.log("ran %d pairs" % len(recs))
    light = [{k: q[k] for k in ("i", "lim", "out", "sol")} for q in recs]
    res = tlc(ctx, "IdleTrace", files={"VINST": [I.tla() for I in insts], "VTRACE": light}, expect_states=2*len(recs))
    bad = sorted(set(res["bad"]))
    for t, c in bad:
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    ctx.traces += len(recs)
    kinds = {}
    for q in recs: kinds[q["what"]] = kinds.get(q["what"], 0)+1
    ctx.notes["records_per_kind"] = kinds
    ctx.notes["largest_n"] = max(I.n for I in insts)
    for q in light[:3]: ctx.sample(dict(q))
    ctx.log("%d pairs, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances; exact arithmetic", "exempt: the capacity of the Tyagi and petal heuristics, the cost limit of Mole-Jameson, Wren-Holliday and the assignment heuristic: documented to use limits in other ways"])
