# -*- coding: utf-8 -*-
"""C11: recorded runs of the local search, judged by SearchTrace."""
from c_moves import *

INTRA = ["2opt", "3opt", "relocate", "exchange"]
INTER = ["2optstar", "1point", "2point"]

def wrappers(ops, log, I):
    """recording closures with the operators' own signatures"""
    from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE
    import verypy.local_search as LS
    out = []
    def rec(name, rds, res, intra):
        e = dict(op=name, rs=[], cost=[], dem=[], out="none", new=[])
        for x in rds:
            t = enc_route(x if intra else x.route)
            e["rs"].append(t[1:-1])
        if not intra:
            e["cost"] = [enc(x.cost, I.s) for x in rds]
            if I.C: e["dem"] = [enc(x.demand, sd_of(I)) for x in rds]
        return e
    def fin(e, res, intra):
        if res[-1] is not None:
            e["out"] = "move"
            e["new"] = [enc_route(x if intra else x.route)[1:-1] for x in res[:-1]]
        log.append(e)
    for o in ops:
        if o in INTRA:
            f = getattr(IA, "do_%s_move" % o)
            def w(route, D, strategy=1, best_delta=None, f=f, o=o):
                e = rec(o, [list(route)], None, True)
                res = f(route, D, strategy, best_delta); fin(e, res, True); return res
        elif o == "chain":
            f = IE.do_chain_move
            def w(route1_data, route2_data, route3_data, D, d=None, C=None, L=None, strategy=1, best_delta=None, f=f, o=o):
                e = rec(o, [route1_data, route2_data, route3_data], None, False)
                res = f(route1_data, route2_data, route3_data, D, d, C, L, strategy, best_delta); fin(e, res, False); return res
        else:
            f = getattr(IE, "do_%s_move" % o)
            def w(route1_data, route2_data, D, d=None, C=None, L=None, strategy=1, best_delta=None, f=f, o=o):
                e = rec(o, [route1_data, route2_data], None, False)
                res = f(route1_data, route2_data, D, d, C, L, strategy, best_delta); fin(e, res, False); return res
        w.__name__ = f.__name__
        if f in LS.ROUTE_ORDER_SENSITIVE_OPERATORS: LS.ROUTE_ORDER_SENSITIVE_OPERATORS.add(w)
        out.append(w)
    return out

def one(job):
    from verypy.local_search import do_local_search, LSOPT, ITEROPT
    import verypy.local_search as LS
    I, idx, rs, ops, st, it, mi, gap, plain = job
    log = []
    if plain:
        from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE
        ws = [getattr(IA if o in INTRA else IE, "do_%s_move" % o) for o in ops]
    else: ws = wrappers(ops, log, I)
    t = [0]
    for j, r in enumerate(rs):
        t += list(r)+[0]
        if gap == j: t += [0]
    S = {"FIRST": LSOPT.FIRST_ACCEPT, "BEST": LSOPT.BEST_ACCEPT}[st]
    T = {"FIRST": ITEROPT.FIRST_ACCEPT, "BEST": ITEROPT.BEST_ACCEPT, "ALL": ITEROPT.ALL_ACCEPT, "REP": ITEROPT.REPEATED_ACCEPT}[it]
    kind, v = call(do_local_search, ws, list(t), I.D, I.d, I.C, I.L, S, T, mi, cpu=20)
    for w in ws if not plain else []: LS.ROUTE_ORDER_SENSITIVE_OPERATORS.discard(w)
    q = dict(i=idx+1, start=[list(r) for r in rs], ops=ops, strat=st, iter=it, complete=mi is None, spare=gap is not None, mi=mi or 0, plain=plain,
             out="plan", sol=[], calls=[], msg="", key="%s/%s" % (st, it))
    if kind == "ret":
        q["sol"] = enc_route(v) if v is not None else None
        if q["sol"] is None: q["out"] = "exc"; q["sol"] = []; q["msg"] = "malformed result"
        q["calls"] = log
    else: q["out"] = "hang" if kind == "hang" else "exc"; q["msg"] = str(v)
    return q

def many(js): return [one(j) for j in js]

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "SearchMC", "SearchMC.cfg")
    if ctx.tier == "thorough": mc(ctx, "SearchMC", open(os.path.join(SPEC, "SearchMC.cfg")).read().replace('"relocate", "1point", "2optstar"', '"2opt", "exchange", "2point", "insert"'))
    r = ctx.rng("ls"); insts = []; jobs = []
    for k in range(ctx.n(1300, 12000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9] + ([14, 20] if k % 12 == 0 else []))
        I = base(r, n, seed=k, dem=r.choice(["small", "zeros", "dyadic", "unit", "mixed"]))
        rs = split(r, range(1, n+1), min(n, r.choice([1, 2, 2, 3, 3, 4, 5])))
        limits_for(r, I, rs, .65, .5); insts.append(I)
        for _ in range(2):
            ops = r.sample(INTRA, r.choice([0, 1, 1, 2])) + r.sample(INTER, r.choice([0, 1, 2, 3])) + (["chain"] if r.random() < .3 else [])
            if not ops: ops = ["2opt"]
            r.shuffle(ops)
            plain = r.random() < .15
            jobs.append((I, len(insts)-1, rs, ops, r.choice(["FIRST", "BEST"]), r.choice(["FIRST", "BEST", "ALL", "ALL", "REP"]),
                         r.choice([None, None, None, None, 1, 2, 3]), len(rs)-1 if r.random() < .08 else None, plain))
    for k in range(ctx.n(2200, 30000)):      # triples of routes, of which only some change
        n = r.choice([6, 7, 8, 9])
        I = base(r, n, seed=k, dem=r.choice(["small", "unit", "mixed"]))
        rs = split(r, range(1, n+1), r.choice([4, 5, 5]))
        limits_for(r, I, rs, .9, .4); insts.append(I)
        ops = ["chain"]+r.sample(INTRA+INTER, r.choice([0, 1, 1, 2])); r.shuffle(ops)
        jobs.append((I, len(insts)-1, rs, ops, r.choice(["FIRST", "FIRST", "BEST"]), r.choice(["FIRST", "BEST", "ALL", "REP"]), None, None, False))
    for k in range(ctx.n(500, 6000)):       # an empty route beside a few good ones, detours cheaper than the direct way
        n = r.choice([2, 3, 3, 4, 5])
        I = base(r, n, seed=k, dem=r.choice(["small", "unit"]), kinds=["explicit"])
        rs = split(r, range(1, n+1), r.choice([1, 1, 2]))
        limits_for(r, I, rs, .6, .3); insts.append(I)
        ops = r.choice([["1point"], ["1point", "2opt"], ["2optstar"], ["1point", "3opt"], ["2optstar", "relocate"]])
        jobs.append((I, len(insts)-1, rs, ops, r.choice(["FIRST", "BEST"]), r.choice(["FIRST", "BEST", "ALL", "REP"]), None, r.randrange(len(rs)), False))
    recs = [q for part in pmap(many, chunks(jobs, 20)) for q in part]
    ctx.log("ran %d searches, %d operator calls" % (len(recs), sum(len(q["calls"]) for q in recs)))
    ctx.notes["operator_calls"] = sum(len(q["calls"]) for q in recs)
    bad = []
    traced = [j for j, q in enumerate(recs)]
    light = []
    for q in recs:
        l = {k: q[k] for k in ("i", "start", "ops", "complete", "spare", "out", "sol", "calls")}
        light.append(l)
    res = tlc(ctx, "SearchTrace", files={"VTRACE": light, "VINST": [I.tla() for I in insts]})
    for tid, c in sorted(set(res["bad"])): bad.append((tid-1, c))
    seen = set(b[0] for b in bad)
    for j, q in enumerate(recs):
        if j in seen or q["plain"] or j+1 in res["match"]: continue
        bad.append((j, "no run of the search explains the operator calls and the returned plan"))
    ctx.traces += len(recs)
    ctx.notes["runs_matched"] = len(res["match"])
    for j, c in bad:
        q = dict(recs[j]); q["inst"] = insts[q["i"]-1].brief(); ctx.violation(c, q, q["key"])
    for q in recs[:3]: ctx.sample(dict(start=q["start"], ops=q["ops"], strat=q["strat"], iter=q["iter"], sol=q["sol"], ncalls=len(q["calls"])))
    ctx.log("%d searches, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["symmetric distances; feasible start; exact arithmetic",
                            "routes emptied by the search leave the plan (moves into a route the search emptied are not considered)"])
