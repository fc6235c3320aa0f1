# -*- coding: utf-8 -*-
"""C04 (purity over call histories) and C05 (interrupts)."""
from c_build import *
from vlib import _np
from heur import ALL, FAST, MID, GUR, SLOW, may_refuse, size_ok, run_heur
import pickle, json

# ---------------------------------------------------------------- an interruptible distance matrix
def dp_class():
    np = _np()
    if "DP" in globals(): return globals()["DP"]
    class DP(np.ndarray):
        cnt = 0; lim = None
        def __getitem__(self, k):
            DP.cnt += 1
            if DP.lim is not None and DP.cnt == DP.lim: raise KeyboardInterrupt()
            return np.ndarray.__getitem__(self, k)
    globals()["DP"] = DP
    return DP

def interruptible(D, at):
    """view of D whose at-th lookup is interrupted (None: only counted)"""
    DP = dp_class(); v = D.view(DP); DP.cnt = 0; DP.lim = at
    return v

def lookups(): return dp_class().cnt

# ---------------------------------------------------------------- calls of C04
def norm(v):
    """result as a string; solutions canonically, everything else by value"""
    if v is None: return "none"
    if isinstance(v, (list, tuple)) and v and all(hasattr(x, "__index__") or isinstance(x, int) for x in v):
        return "sol "+" ".join(str(int(x)) for x in v)
    return "val "+repr(plain(v))

def plain(v):
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    if hasattr(v, "route") and hasattr(v, "cost"): return ["rd", plain(v.route), float(v.cost), float(v.demand)]
    if hasattr(v, "item") and getattr(v, "ndim", 1) == 0: return float(v.item())
    if hasattr(v, "tolist"): return plain(v.tolist())
    if isinstance(v, float): return v
    if isinstance(v, (set, frozenset)): return sorted(plain(x) for x in v)
    if hasattr(v, "__index__"): return int(v)
    return str(v)

def make_call(world, c):
    """the call c on the caller's objects -> (kind, value)"""
    from verypy.classic_heuristics import gaskell_savings as GA, paessens_savings as PA, suppression_savings as SU
    from verypy.classic_heuristics import cheapest_insertion as CI, nearest_neighbor as NN, mole_jameson_insertion as MJ, wren_holliday_sweep as WH
    from verypy.classic_heuristics import sweep as SW, cmt_2phase as CM, parallel_savings as PS, rfcs as RF
    from verypy.tsp_solvers import tsp_solver_ropt as T
    from verypy.local_search import do_local_search, LSOPT
    from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE
    o = world[c["w"]]; P, D, d, C, L, ewt, s0 = o["P"], o["D"], o["d"], o["C"], o["L"], o["ewt"], o["sol"]
    if c.get("at"): D = interruptible(D, c["at"])
    a = (D, d, C, L); n = len(d)-1; f = c["f"]; x = c.get("x", 0)
    g = {
     "reg": lambda: algo(c["ab"])[3](P, D, d, C, L, None, ewt, c["single"], c["mk"]),
     "gs": lambda: GA.gaskell_savings_init(*a, savings_method=["both", "pi", "lambda"][x % 3]),
     "gps": lambda: PA.paessens_savings_init(*a, strategy=o["strat"], do_3opt=bool(x % 2)),
     "supp": lambda: SU.suppression_savings_init(*a, Lprime=1+x % 3),
     "ci": lambda: CI.cheapest_insertion_init(*a, emerging_route_count=1+x % 3, initialize_routes_with=["farthest", "strain"][x % 2]),
     "nn": lambda: NN.nearest_neighbor_init(*a, emerging_route_count=1+x % 3, initialize_routes_with=["closest", "farthest", "nearest"][x % 3]),
     "sw": lambda: SW.sweep_init(P, D, d, C, L, direction=["cw", "ccw", "both"][x % 3], seed_node=[x % n]),
     "cmt": lambda: CM.cmt_2phase_init(D, d, C, L, False, phase1_seed_selection_method=["farthest", "closest", "biggest"][x % 3]),
     "tsp": lambda: (T.solve_tsp_2opt, T.solve_tsp_3opt, T.solve_tsp_ropt)[x % 3](D, o["nodes"]),
     "ls": lambda: do_local_search([[IA.do_2opt_move, IE.do_1point_move, IE.do_insert_move], [IA.do_3opt_move], [IE.do_2optstar_move, IA.do_relocate_move], [IE.do_2point_move, IA.do_exchange_move]][x % 4],
                                   s0, D, d, C, L, [LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT][x % 2]),
     "rfcs": lambda: RF.route_first_cluster_second_init(D, d, C, L),
     "psf": lambda: PS.parallel_savings_init(*a, savings_callback=GA.gaskell_pi_savings_function),
    }[f]
    return call(g, cpu=40)

def snap(o):
    import hashlib
    np = _np()
    x = (repr(o["P"]), str(np.asarray(o["D"]).dtype), np.asarray(o["D"]).tobytes(), repr(o["d"]), repr(o["C"]), repr(o["L"]), repr(o["sol"]), repr(o["nodes"]), repr(o["strat"]))
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]

def outcome_of(kind, v):
    if kind == "ret": return "ret", norm(v)
    if kind == "int": return "interrupted", "interrupted"
    return "ret", "hang" if kind == "hang" else "raised "+str(v).split(" @")[0]

def in_fork(fn, *a):
    """fn(*a) in a process of its own"""
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try: out = (0, fn(*a))
            except BaseException: out = (1, traceback.format_exc())
            with os.fdopen(wr, "wb") as fo: pickle.dump(out, fo)
        finally: os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as fi: data = fi.read()
    os.waitpid(pid, 0)
    k, v = pickle.loads(data)
    if k: raise RuntimeError(v)
    return v

def alone(world, c):
    k, v = outcome_of(*make_call(world, c)); return v

def edit(world, c):
    """the caller overwrites or replaces the objects of slot w with another instance's data"""
    o, q = world[c["w"]], c["to"]
    if c["how"] == "inplace" and o["D"].dtype == q["D"].dtype:
        o["D"][:] = q["D"]; o["d"][:] = q["d"]; o["P"][:] = q["P"]; o["sol"][:] = q["sol"]; o["nodes"][:] = q["nodes"]
        for k in ("C", "L", "ewt"): o[k] = q[k]
    else:                                            # the old objects are gone, their addresses may be used again
        sh = o["D"].shape; o.clear()
        world[c["w"]] = q

def history(world, calls, seed):
    import random as R
    np = _np(); steps = []; kept = []
    for k, c in enumerate(calls):
        R.seed(seed*1000+k); np.random.seed((seed*1000+k) % 2**31)       # the caller's own randomness
        if c["f"] == "edit":
            edit(world, dict(c, to=copy_slot(c["to"])))
            steps.append(dict(call="", kind="edit", res=c["how"], world="/".join(snap(o) for o in world))); kept.append(("edit", c["how"]))
            continue
        kind, v = make_call(world, c)
        w, t = outcome_of(kind, v)
        steps.append(dict(call=c["name"], kind=w, res=t, world="/".join(snap(o) for o in world))); kept.append((kind, v))
    return steps, [x[1] if x[0] == "edit" else outcome_of(*x)[1] for x in kept]

def copy_slot(q):
    return {k: (list(v) if isinstance(v, list) else v.copy() if k == "D" else v) for k, v in q.items()}

def build_world(j):
    world = [world_of(I, r) for I, r in j["world"]]
    for w, sh in enumerate(j["shared"]):             # some slots are the same matrix and points, with other demands or limits
        if sh is not None: world[w]["D"] = world[sh]["D"]; world[w]["P"] = world[sh]["P"]
    return world

def one_hist(j):
    world = build_world(j)
    w0 = "/".join(snap(o) for o in world)
    fresh = {}; now = list(world)
    calls = []
    for c in j["calls"]:
        if c["f"] == "edit":
            q = world_of(*c["inst"]); now[c["w"]] = copy_slot(q); c = dict(c, to=q)
        elif c["name"] not in fresh and not c.get("at"):
            fresh[c["name"]] = in_fork(alone, now, c)
        if c["f"] != "edit": fresh.setdefault(c["name"], "?")
        calls.append(c)
    steps, kept = in_fork(history, world, calls, j["seed"])
    return dict(world0=w0, fresh=fresh, steps=steps, kept=kept)

def twin(I, r):
    """an instance that looks like I to a careless cache: same size and much else in common"""
    import copy
    J = copy.deepcopy(I); n = I.n; how = r.choice(["perm", "perm", "dem", "cap", "pairs", "scale"]); share = False
    if how == "perm":
        p = [0]+r.sample(range(1, n+1), n)
        J.Di = [[I.Di[a][b] for b in p] for a in p]; J.pts = [I.pts[a] for a in p]
        if r.random() < .5: J.di = [I.di[a] for a in p]
    elif how == "dem": J.di = [0]+r.sample(list(I.di[1:]), n); share = True
    elif how == "cap":
        if I.Ci: J.Ci = I.Ci+r.choice([1, max(I.di)])
        if I.Li: J.Li = I.Li+r.choice([1, max(I.Di[0])])
        share = True
    elif how == "scale":
        J.Di = [[2*x for x in row] for row in I.Di]; J.Li = 2*I.Li; J.pts = [(2*x, 2*y) for x, y in I.pts]
    else:                                            # the same set of distances, two pairs of customers swapped
        ps = [(a, b) for a in range(1, n+1) for b in range(a+1, n+1)]
        if len(ps) > 1:
            (a, b), (c, e) = r.sample(ps, 2); D = [list(x) for x in I.Di]
            D[a][b], D[c][e] = I.Di[c][e], I.Di[a][b]; D[b][a], D[e][c] = D[a][b], D[c][e]
            J.Di = metric_closure(D)
        if J.Li: J.Li = max(J.Li, 2*max(J.Di[0]))
    finish_inst(J, J.s, sd_of(I), r)
    return J, share

def world_of(I, seed):
    import random as R
    r = R.Random(seed)
    cs = list(range(1, I.n+1)); r.shuffle(cs)
    sol = [0]
    for c in cs: sol += [c, 0]                       # everyone alone: always feasible
    return dict(P=[tuple(p) for p in I.pts], D=I.D.copy(), d=list(I.d), C=I.C, L=I.L, ewt=I.ewt, sol=sol, nodes=[0]+cs, strat=[(1.0, .1), (1.4, .5), (.8, .2)])

def big_inst(r, n, q):
    I = gen_inst(r, n=n, kinds=["euc", "man", "ceil"], grid=r.choice([10, 40]), coords=True, seed=q, C="any", L="yes" if r.random() < .8 else "no")
    if I.Li: I.Di = metric_closure([list(x) for x in I.Di]); I.Li = max(I.Li, 2*max(I.Di[0])+r.choice([0, I.Li//2])); finish_inst(I, I.s, sd_of(I), r)
    return I

def main04(ctx):
    r = ctx.rng("hist"); jobs = []
    mc(ctx, "HistoryMC", "HistoryMC.cfg")
    have = preload(ALL)
    heavy = [a for a in GUR+SLOW if a in have]; mid = [a for a in MID if a in have]; fast = [a for a in FAST if a in have]
    for k in range(ctx.n(1000, 12000)):
        world = []; shared = []
        n0 = r.choice([2, 3, 4, 5, 6, 7, 8])
        def fresh_inst(n, q):
            I = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "ceil"], grid=r.choice([3, 10, 40]), coords=True, seed=q, C=r.choice(["yes", "any", "tight"]))
            if I.Li: I.Di = metric_closure([list(x) for x in I.Di]); I.Li = max(I.Li, 2*max(I.Di[0])); finish_inst(I, I.s, sd_of(I), r)
            return I
        for w in range(r.choice([1, 2, 2, 3])):
            n = n0 if r.random() < .6 else r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])     # often the same size: stale caches keyed by size
            if world and r.random() < .6:
                b = r.randrange(len(world)); I, sh = twin(world[b][0], r); world.append((I, world[b][1]))
                while sh and shared[b] is not None: b = shared[b]
                shared.append(b if sh and r.random() < .6 else None)
            else: world.append((fresh_inst(n, k*7+w), k*7+w)); shared.append(None)
        cur = [(I, q, 0) for I, q in world]; pool = []
        tied = set(x for w, x in enumerate(shared) if x is not None) | set(w for w, x in enumerate(shared) if x is not None)
        focus = r.choice([None, None, r.choice(fast), r.choice(mid), r.choice(heavy)])
        for _ in range(r.choice([3, 5, 8])):
            if r.random() < .6:
                ab = focus if focus and r.random() < .7 else r.choice(fast+fast+mid+heavy)
                c = dict(f="reg", ab=ab, single=r.random() < .4, mk=r.random() < .3)
            else: c = dict(f=r.choice(["gs", "gps", "supp", "ci", "nn", "sw", "cmt", "tsp", "ls", "ls", "rfcs", "psf"]), x=r.randrange(12))
            # the same call on several of the instances
            for w in (range(len(world)) if r.random() < .5 else [r.randrange(len(world))]):
                if c["f"] != "reg" or size_ok(c["ab"], world[w][0].n): pool.append(dict(c, w=w))
        if not pool: continue
        calls = []
        for _ in range(r.choice([6, 10, 16])):
            loose = [w for w in range(len(world)) if w not in tied]
            if loose and r.random() < .12:           # the caller changes its own data between calls
                w = r.choice(loose); I, q, v = cur[w]
                if r.random() < .4 and v: J, q2 = world[w]; v2 = 0     # back to what it was at first
                else: J, q2, v2 = twin(I, r)[0] if r.random() < .7 else fresh_inst(I.n, k*7+50+len(calls)), q, v+1+100*len(calls)
                cur[w] = (J, q2, v2)
                calls.append(dict(f="edit", w=w, how=r.choice(["inplace", "replace"]), inst=(J, q2), name=""))
                continue
            c = dict(r.choice(pool), v=cur[0][2]); c["v"] = cur[c["w"]][2]
            c["name"] = " ".join("%s=%s" % (a, b) for a, b in sorted(c.items()))
            if r.random() < .15:                     # sometimes the call is interrupted half way
                c["at"] = r.choice([1, 2, 5, 10, 30, 100, 300, 1000]); c["name"] += " interrupted"
            calls.append(c)
        jobs.append(dict(world=world, shared=shared, calls=calls, seed=k))
    # one heuristic, larger instances that follow each other on the same objects or on new ones in their place
    for ab in fast+mid+heavy:
        for k in range(ctx.n(20 if ab in fast else 60 if ab == "gm" else 12 if ab in mid else 4, 150 if ab in fast+["gm"] else 60 if ab in mid else 15)):
            n = r.choice([7, 8, 9, 10, 12]); q0 = 90000+k*20
            while not size_ok(ab, n+2): n -= 1
            I = big_inst(r, n, q0); now, q, v = I, q0, 0; first = True; calls = []; mk = r.random() < .3; single = r.random() < .3
            for t in range(4):
                if t:
                    if r.random() < .25 and v: now, q, v = I, q0, 0
                    else: now, q, v = big_inst(r, n, q0+t), q0+t, t
                    calls.append(dict(f="edit", w=0, how=r.choice(["inplace", "replace", "replace"]), inst=(now, q), name=""))
                calls.append(dict(f="reg", ab=ab, single=single, mk=mk, w=0, v=v, name="%s mk=%s single=%s v=%d" % (ab, mk, single, v)))
            jobs.append(dict(world=[(I, q0)], shared=[None], calls=calls, seed=200000+k))
    recs = pmap(one_hist, jobs, chunksize=2)
    # a call whose interrupt point lies beyond its end simply returns: it must return the plain result
    for q in recs:
        for s in q["steps"]:
            if s["call"].endswith(" interrupted") and s["kind"] == "ret":
                b = s["call"][:-12]
                if b in q["fresh"]: s["call"] = b
            q["fresh"].setdefault(s["call"], "?")
    ctx.log("%d histories, %d calls" % (len(recs), sum(len(q["steps"]) for q in recs)))
    ctx.notes["calls"] = sum(len(q["steps"]) for q in recs)
    ctx.notes["interrupted_calls"] = sum(s["kind"] == "interrupted" for q in recs for s in q["steps"])
    ctx.notes["edits_by_the_caller"] = sum(s["kind"] == "edit" for q in recs for s in q["steps"])
    ctx.notes["repeated_calls"] = sum(len(q["steps"])-len(set(s["call"] for s in q["steps"])) for q in recs)
    ctx.notes["errors_seen"] = sorted(set(s["res"] for q in recs for s in q["steps"] if s["res"].startswith(("raised", "hang"))))[:20]
    res = tlc(ctx, "HistoryTrace", files=dict(VTRACE=recs))
    import re as _re
    where = dict(((int(a), b), int(p)) for a, b, p in _re.findall(r'<<"BAD", (\d+), "([^"]*)", (\d+)>>', res["out"]))
    if not where and res["states"] != sum(len(q["steps"])+2 for q in recs): raise TLCError("states: %d" % res["states"])
    for (t, c), p in sorted(where.items()):
        q = recs[t-1]; j = jobs[t-1]
        st = q["steps"][p-1] if p else {}
        ctx.violation(c, dict(history=[s["call"] for s in q["steps"][:p or None]], step=st, fresh=q["fresh"].get(st.get("call")), instances=[I.brief() for I, _ in j["world"]], key=st.get("call", "")), (st.get("call") or "kept").split(" single")[0])
    ctx.traces += len(recs)
    for q in recs[:2]: ctx.sample(dict(steps=q["steps"][:4]))
    ctx.finish(assumptions=["results are compared with those of the same call in a process of its own", "instances have at most 12 customers"])

# ---------------------------------------------------------------- C05
def one05(j):
    I, ab = j["I"], j["ab"]; out = []
    a = lambda D, d: (list(I.pts), D, d, I.C, I.L, None, I.ewt, j["single"], j["mk"])
    kind, v = call(algo(ab)[3], *a(interruptible(I.D.copy(), None), list(I.d)), cpu=60)
    T = lookups()
    if kind != "ret" or not T: return out
    import random as R
    r = R.Random(j["seed"])
    pts = range(1, T+1) if T <= j["pts"] else sorted(set([1, 2, T, T-1]+[r.randint(1, T) for _ in range(j["pts"]-4)]))
    for at in pts:
        D0 = I.D.copy(); d0 = list(I.d)
        kind, v = call(algo(ab)[3], *a(interruptible(D0, at), d0), cpu=30)
        fired = lookups() >= at
        dp_class().lim = None
        q = dict(i=j["idx"]+1, alg=ab, at=at, of=T, single=j["single"], mk=j["mk"], out="", sol=[], mut="", msg="")
        if kind == "int":
            q["out"] = "int"
            p = v.args[0] if v.args else None
            if p is not None and not (isinstance(p, (list, tuple)) and len(p) == 0):
                t = enc_route(p) if isinstance(p, (list, tuple)) else None
                if t is None: q["out"] = "odd"; q["msg"] = repr(p)[:100]
                else: q["sol"] = t
        elif kind == "ret":
            if not fired: continue                   # ended before that lookup
            q["out"] = "swallowed"
        else: q["out"] = kind; q["msg"] = str(v)
        if (D0 != I.D).any(): q["mut"] += "D"
        if d0 != list(I.d): q["mut"] += "d"
        out.append(q)
    return out

def main05(ctx):
    r = ctx.rng("int"); insts = []; jobs = []
    mc(ctx, "InterruptMC", "InterruptMC.cfg")
    have = preload(ALL)
    for k in range(ctx.n(80, 500)):
        for ab in have:
            n = r.choice([2, 3, 4, 5, 6, 7, 8, 10])
            if not size_ok(ab, n) or (ab in SLOW+["gap"] and n > 6): n = r.choice([2, 3, 4, 5])
            I = gen_inst(r, n=n, kinds=["euc", "man", "dyadic", "ceil"], grid=r.choice([3, 10, 40]), coords=True, seed=k, C=r.choice(["yes", "any", "tight"]))
            if I.Li: I.Di = metric_closure([list(x) for x in I.Di]); I.Li = max(I.Li, 2*max(I.Di[0])); finish_inst(I, I.s, sd_of(I), r)
            mk = r.random() < .3
            if may_refuse(ab, I, mk): mk = False
            if may_refuse(ab, I, mk): continue
            insts.append(I)
            jobs.append(dict(I=I, idx=len(insts)-1, ab=ab, single=r.random() < .5, mk=mk, seed=k, pts=ctx.n({"gap": 8, "lr3o": 12, "mbsa": 14, "ptl": 20}.get(ab, 30), 120)))
    jobs.sort(key=lambda j: -({"gap": 9, "lr3o": 9, "mbsa": 9, "ptl": 8, "gps": 7, "wh": 6, "gm": 6}.get(j["ab"], 1)*j["I"].n))
    recs = [q for part in pmap(one05, jobs) for q in part]
    ctx.log("%d interrupts" % len(recs))
    bare = [dict(i=q["i"], out=q["out"], sol=q["sol"], mut=q["mut"]) for q in recs]
    res = tlc(ctx, "InterruptTrace", files=dict(VTRACE=bare, VINST=[I.tla() for I in insts]), expect_states=2*len(recs))
    for t, c in sorted(set(res["bad"])):
        q = dict(recs[t-1]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["alg"])
    ctx.traces += len(recs)
    per = {}
    for q in recs: x = per.setdefault(q["alg"], [0, 0]); x[0] += 1; x[1] += bool(q["sol"])
    ctx.notes["interrupts_and_salvaged_per_heuristic"] = per
    for q in recs[:3]: ctx.sample(q)
    ctx.finish(assumptions=["interrupts arrive at distance lookups, where the heuristics spend their time", "at least two customers; triangle inequality where a route cost limit is set"])

def main(prop):
    ctx = Ctx(prop)
    with quiet(): {"C04": main04, "C05": main05}.get(prop)
    (main04 if prop == "C04" else main05)(ctx)
