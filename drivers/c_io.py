# -*- coding: utf-8 -*-
"""C21 reading TSPLIB instances, C22 side constraints, written instances and solution files."""
from c_moves import *
from vlib import _np

FORMATS = ["FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW", "UPPER_ROW", "UPPER_DIAG_ROW", "LOWER_COL"]

def col(r, f, v): return f+r.choice([": ", ":", " : ", " :", "\t:\t"])+str(v)
def num(r, x, s):
    """x/s written out exactly"""
    if x % s == 0:
        return r.choice(["%d", "%d", "%d", "%d.0", "%d.00"]) % (x//s)
    return repr(x/float(s))
def eol(r): return r.choice(["\n", "\n", "\n", " \n", "\n\n", "\r\n"])

def cells(fmt, m):
    if fmt == "FULL_MATRIX": return [(i, j) for i in range(m) for j in range(m)]
    if fmt == "LOWER_ROW": return [(i, j) for i in range(m) for j in range(i)]
    if fmt == "LOWER_DIAG_ROW": return [(i, j) for i in range(m) for j in range(i+1)]
    if fmt == "UPPER_ROW": return [(i, j) for i in range(m) for j in range(i+1, m)]
    if fmt == "UPPER_DIAG_ROW": return [(i, j) for i in range(m) for j in range(i, m)]

def wrap(r, toks, fmt, m):
    """tokens broken over lines: one per row, all on one line, or anywhere"""
    y = r.random(); out = ""
    for k, t in enumerate(toks):
        out += t
        if k == len(toks)-1: break
        if y < .25: out += " "
        elif y < .4: out += "\n"
        else: out += r.choice([" ", " ", "  ", "\t", "\n", " \n ", "\n\n"])
    return out+"\n"

def make_file(r):
    """-> (text, record without results)"""
    m = r.choice([2, 2, 3, 3, 4, 5, 6, 8, 12])
    typ = r.choice(["EXPLICIT"]*6+["EUC_2D", "EUC_2D", "CEIL_2D", "FLOOR_2D", "MAN_2D", "MAX_2D", "EXACT_2D", "ATT", "ATT", "GEO"])
    q = dict(kind="read", m=m, type=typ, fmt="", nums=[], dep=1, dem=[], cap=0, cs=1, xs=1, pts=[], coords=False, dd=False, reject=False)
    head = [col(r, "NAME", "x-n%d" % m), col(r, "COMMENT", "made: by hand"), col(r, "DIMENSION", m), col(r, "EDGE_WEIGHT_TYPE", typ),
            col(r, "TYPE", r.choice(["CVRP", "CVRP", "CVRP", "TSP"]))]
    if r.random() < .8: q["cap"] = r.choice([1, 30, 100, 5000]); head.append(col(r, "CAPACITY", q["cap"]))
    secs = []
    if typ == "EXPLICIT":
        fmt = r.choice(FORMATS); q["fmt"] = fmt; head.append(col(r, "EDGE_WEIGHT_FORMAT", fmt))
        q["xs"] = r.choice([1, 1, 1, 2, 4])
        hi = r.choice([3, 100, 9999])
        M = [[0]*m for _ in range(m)]
        for i in range(m):
            for j in range(i): M[i][j] = M[j][i] = r.randint(0, hi)*(q["xs"] if r.random() < .3 else 1)
        if r.random() < .15:
            for i in range(m): M[i][i] = 9999*q["xs"]
        c = [(i, j) for j in range(m) for i in range(j+1, m)] if fmt == "LOWER_COL" else cells(fmt, m)
        q["nums"] = [M[i][j] for i, j in c]
        toks = [num(r, x, q["xs"]) for x in q["nums"]]
        if r.random() < .12:
            cut = r.choice([1, 1, 2, max(1, len(toks)//2), m, m-1])
            if cut <= len(toks): q["reject"] = True; toks = toks[:len(toks)-cut]
        secs.append("EDGE_WEIGHT_SECTION\n"+(wrap(r, toks, fmt, m) if toks else ""))
        y = r.random(); q["coords"] = y < .25; q["dd"] = .25 <= y < .5
    else:
        q["coords"] = typ != "GEO"
        q["xs"] = 16 if typ == "EXACT_2D" else 1
        if r.random() < .3: head.append(col(r, "EDGE_WEIGHT_FORMAT", "FUNCTION"))
    grid = r.choice([3, 10, 60])
    if typ == "GEO":
        q["cs"] = 60; q["dd"] = True
        if r.random() < .5:
            o = r.randint(-180, 180)*60
            P = [(r.randint(-5400, 5400), o) for _ in range(m)]
        else: P = [(0, r.randint(-10800, 10800)//2) for _ in range(m)]
        def f(x): return ("-" if x < 0 else "")+"%d.%02d" % (abs(x)//60, abs(x) % 60)
    else:
        q["cs"] = r.choice([1, 1, 8, 2]) if typ in ("EUC_2D", "CEIL_2D", "FLOOR_2D", "EXACT_2D", "ATT") else 1
        cs = q["cs"]
        P = [(r.randint(-grid*cs, grid*cs), r.randint(-grid*cs, grid*cs)) for _ in range(m)]
        if r.random() < .3: P = [(cs*(x//cs), cs*(y//cs)) for x, y in P]
        def f(x): return num(r, x, cs) if r.random() < .9 else "%.3e" % (x/float(cs)) if abs(x) < 1000 and x % cs == 0 else num(r, x, cs)
    q["pts"] = [list(p) for p in P]
    rows = "".join("%s%d%s%s %s%s" % (r.choice(["", "", " "]), k+1, r.choice([" ", "\t", "  "]), f(x), f(y), eol(r)) for k, (x, y) in enumerate(P))
    if q["coords"] or typ == "GEO": secs.append("NODE_COORD_SECTION\n"+rows)
    elif q["dd"]: secs.append("DISPLAY_DATA_SECTION\n"+rows)
    if r.random() < .45: q["dep"] = r.randint(1, m)
    if r.random() < .9:
        q["dem"] = [0 if k+1 == q["dep"] else r.randint(0, 30) for k in range(m)]
        secs.append("DEMAND_SECTION\n"+"".join("%d %d%s" % (k+1, x, eol(r)) for k, x in enumerate(q["dem"])))
        q["dem"] = q["dem"]
    deps = ""
    if q["dep"] != 1 or r.random() < .7:
        ids = [q["dep"]]
        if m > 2 and not q["reject"] and r.random() < .05: ids.append(q["dep"] % m+1); q["reject"] = True
        deps = "DEPOT_SECTION\n"+"".join("%s%d\n" % (r.choice(["", " "]), i) for i in ids)+r.choice([" -1\n", "-1\n"])
        secs.append(deps)
    if r.random() < .1: secs.append("SVC_TIME_SECTION\n"+"".join("%d %d\n" % (k+1, 10) for k in range(m)))
    if not q["reject"] and r.random() < .04:
        head[4] = col(r, "TYPE", r.choice(["SOP", "HCP"])); q["reject"] = True
    elif not q["reject"] and typ != "EXPLICIT" and r.random() < .04:
        head[3] = col(r, "EDGE_WEIGHT_TYPE", r.choice(["XRAY1", "EUC_3D"])); q["reject"] = True
    if r.random() < .5: r.shuffle(head)
    if r.random() < .6: r.shuffle(secs)
    return "".join(h+eol(r) for h in head)+"".join(secs)+r.choice(["EOF", "EOF\n", ""]), q

def iof(x, s):
    """x*s as an exact integer, else None"""
    v = float(x)*s
    return int(round(v)) if abs(v-round(v)) < 1e-6 else None

class NotExact(Exception): pass
def ex(x, s):
    v = iof(x, s)
    if v is None: raise NotExact(repr(x))
    return v

def write_tmp(text, suffix):
    fd, p = tempfile.mkstemp(suffix=suffix, prefix="vp_io_"); os.close(fd)
    with open(p, "w", newline="") as f: f.write(text)
    return p

def put_problem(q, v, xs):
    q["size"] = int(v.size); q["rcap"] = 0 if v.capacity_constraint is None else int(v.capacity_constraint); q["rtype"] = str(v.edge_weight_type)
    q["rdem"] = [] if v.customer_demands is None else [ex(x, 1) for x in v.customer_demands]
    if q["kind"] == "read":
        if q["type"] == "GEO": back = lambda x: int(round(float(x)*10800/3.141592))
        else: back = lambda x: ex(x, q["cs"])
        q["rpts"] = [] if v.coordinate_points is None else [[back(x), back(y)] for x, y in v.coordinate_points]
        q["rdd"] = [] if v.display_coordinate_points is None else [[back(x), back(y)] for x, y in v.display_coordinate_points]
    if q.get("type") == "EXACT_2D": q["D"] = [[int(round(float(x)*xs)) for x in row] for row in v.distance_matrix]
    else: q["D"] = [[ex(x, xs) for x in row] for row in v.distance_matrix]

def reads(job):
    with quiet(): from verypy.cvrp_io import read_TSPLIB_CVRP
    res = []
    for seed in job:
        r = random.Random(seed)
        text, q = make_file(r)
        q.update(out="ret", msg="", D=[], size=-1, rcap=-1, rtype="", rdem=[], rpts=[], rdd=[])
        p = write_tmp(text, r.choice([".vrp", ".tsp"]))
        try: a, v = call(read_TSPLIB_CVRP, p, cpu=10)
        finally: os.unlink(p)
        if a != "ret": q["out"] = "exc" if a == "exc" else a; q["msg"] = str(v)
        elif not q["reject"]:
            try: put_problem(q, v, q["xs"])
            except NotExact as e: q["D"] = []; q["size"] = q["m"]-1; q["msg"] = "not exact "+str(e)
            except Exception as e: q["out"] = "malformed"; q["msg"] = repr(e)
        q["text"] = text
        res.append(q)
    return res

# ---------------------------------------------------------------- C22
def mk_write(r):
    m = r.choice([2, 2, 3, 4, 6, 9])
    s = r.choice([1, 1, 4, 8]); M = [[0]*m for _ in range(m)]
    for i in range(m):
        for j in range(i): M[i][j] = M[j][i] = r.randint(0, r.choice([3, 500]))
    prec = r.random() < .4
    dem = [] if r.random() < .2 else [0]+[r.randint(0, 40) for _ in range(m-1)]
    sel = list(range(m))
    give = r.random() < .5
    if give and m > 2 and r.random() < .7: sel = [0]+r.sample(range(1, m), r.randint(1, m-1))
    C = r.choice([0, 1, 40, 1000]); L = r.choice([0, 0, 7, 500])
    vrp = r.random() < .8
    q = dict(kind="write", m=m, M=M, dem=dem, sel=sel, cap=C, L=[4*L] if L and vrp else [], vrp=vrp, D=[], size=-1, rcap=-1, rtype="", rdem=[], rL=[])
    return q, s, prec, give

def mk_sol(r):
    n = r.randint(1, 12); rs = split(r, range(1, n+1), r.randint(1, min(n, 5)))
    rs = [x for x in rs if x]
    t = [0]
    for x in rs: t += list(x)+[0]*(2 if r.random() < .1 else 1)
    return t, rs

def mk_side(r):
    q = dict(kind="side", K=[], L=[], ST=[], sts=[], rK=[], rL=[], rST=[])
    m = r.randint(2, 6); head = [col(r, "NAME", "y"), col(r, "TYPE", "CVRP"), col(r, "DIMENSION", m), col(r, "CAPACITY", 10)]
    def val(x4): return ("%d" % (x4//4)) if x4 % 4 == 0 and r.random() < .8 else repr(x4/4.)
    if r.random() < .6: k = r.randint(1, 20); q["K"] = [k]; head.append(col(r, "VEHICLES", k))
    if r.random() < .6: x = r.randint(1, 4000); q["L"] = [x]; head.append(col(r, "DISTANCE", val(x)))
    y = r.random(); secs = ["DEMAND_SECTION\n"+"".join("%d %d\n" % (k, r.randint(0, 9)) for k in range(1, m+1))]
    if y < .35: x = r.randint(0, 400); q["ST"] = [x]; head.append(col(r, "SERVICE_TIME", val(x)))
    elif y < .85:
        x = 4*r.randint(0, 100) if r.random() < .6 else r.randint(0, 400)
        vals = [x]*(m-1)
        if m > 2 and r.random() < .3: vals[r.randrange(m-1)] = x+r.choice([1, 4, -4 if x > 4 else 4])
        if m > 2 and r.random() < .1: vals = [0]*(m-1); vals[r.randrange(m-1)] = x        # some without any service time
        q["sts"] = vals
        d0 = r.choice([0, 0, x, 12])
        w = val if r.random() < .5 else (lambda z: ("%d" % (z//4)) if z % 4 == 0 else repr(z/4.))
        secs.append("SVC_TIME_SECTION\n"+"".join("%d %s\n" % (k+1, w(z)) for k, z in enumerate([d0]+vals)))
    secs.append("DEPOT_SECTION\n1\n-1\n")
    if r.random() < .5: r.shuffle(head)
    if r.random() < .6: r.shuffle(secs)
    return "".join(h+"\n" for h in head)+"".join(secs)+"EOF\n", q

def opt_side(v, s): return [] if v is None else [ex(v, s)]

def trips(job):
    with quiet(): from verypy import cvrp_io as IO
    np = _np(); res = []
    for kind, seed in job:
        r = random.Random(seed)
        if kind == "write":
            q, s, prec, give = mk_write(r)
            D = np.array(q["M"], dtype=float)/s if s > 1 or r.random() < .3 else np.array(q["M"])
            p = write_tmp("", ".vrp" if q["vrp"] else ".tsp")
            kw = {}
            if give: kw["selected_idxs"] = list(q["sel"])
            scale = s
            if prec: kw["float_to_int_precision"] = s; scale = 1
            def run():
                IO.write_TSPLIB_file(p, D, d=list(q["dem"]) or None, C=q["cap"] or None, L=(q["L"][0]//4) if q["L"] else None, **kw)
                return IO.read_TSPLIB_CVRP(p), IO.read_TSBLIB_additional_constraints(p)
            try:
                a, v = call(run, cpu=10); q["text"] = open(p).read()
            finally: os.unlink(p)
            q["out"] = "ret" if a == "ret" else "exc"; q["msg"] = "" if a == "ret" else str(v)
            if a == "ret":
                try:
                    put_problem(q, v[0], scale); q["rL"] = opt_side(v[1][1], 4)
                    if not q["dem"]: q["rdem"] = [0]+[4 if x == 1 else -1 for x in q["rdem"][1:]]
                except NotExact as e: q["D"] = []; q["size"] = len(q["sel"])-1; q["msg"] = "not exact "+str(e)
                except Exception as e: q["out"] = "malformed"; q["msg"] = repr(e)
        elif kind == "sol":
            t, rs = mk_sol(r); c = r.choice([r.randint(0, 5000)*4, r.randint(0, 20000)])
            q = dict(kind="sol", sol=t, cost=c, rsol=[], rcost=-1, rk=-1, out="ret", msg="")
            cost = c/4. if c % 4 or r.random() < .3 else c//4
            p = write_tmp("", ("-k%d.opt" % len(rs)) if r.random() < .3 else ".opt")
            def run():
                with open(p, "w") as f: f.write(IO.as_OPT_solution(cost, list(t)))
                return IO.read_OPT_CVRP(p)
            try:
                a, v = call(run, cpu=10); q["text"] = open(p).read()
            finally: os.unlink(p)
            if a != "ret": q["out"] = "exc"; q["msg"] = str(v)
            else:
                try: q["rsol"] = enc_route(v[0]) or []; q["rcost"] = ex(v[1], 4); q["rk"] = int(v[2])
                except Exception as e: q["out"] = "malformed"; q["msg"] = repr(e)
        elif kind == "vrph":
            t, rs = mk_sol(r)
            q = dict(kind="vrph", sol=t, line=[], out="ret", msg="")
            a, v = call(IO.as_VRPH_solution, list(t), cpu=10)
            if a != "ret": q["out"] = "exc"; q["msg"] = str(v)
            else:
                try: q["line"] = [int(x) for x in v]
                except Exception as e: q["out"] = "malformed"
        else:
            text, q = mk_side(r); q.update(out="ret", msg="", text=text)
            p = write_tmp(text, ".vrp")
            try: a, v = call(IO.read_TSBLIB_additional_constraints, p, cpu=10)
            finally: os.unlink(p)
            if a != "ret": q["out"] = "exc"; q["msg"] = str(v)
            else:
                try: q["rK"] = opt_side(v[0], 1); q["rL"] = opt_side(v[1], 4); q["rST"] = opt_side(v[2], 4)
                except Exception as e: q["out"] = "malformed"; q["msg"] = repr(e)
        res.append(q)
    return res

def main(prop):
    ctx = Ctx(prop); r = ctx.rng("io")
    if prop == "C21":
        mc(ctx, "TsplibMC", "TsplibMC.cfg" if ctx.tier == "quick" else "SPECIFICATION Spec\nCONSTANT MaxM = 10\nINVARIANTS CursorOK EndOK Complete\n")
        jobs = [r.randrange(10**12) for _ in range(ctx.n(5000, 60000))]; fn = reads
    else:
        jobs = [(k, r.randrange(10**12)) for k in ["write", "sol", "vrph", "side"] for _ in range(ctx.n(1500, 15000))]; fn = trips
    recs = [q for part in pmap(fn, chunks(jobs, 200)) for q in part]
    by = {}
    for q in recs:
        k = "/".join([q["kind"], q.get("type", ""), q.get("fmt", ""), q["out"]]); by[k] = by.get(k, 0)+1
    ctx.notes["calls"] = by
    light = [{k: v for k, v in q.items() if k not in ("msg", "text")} for q in recs]
    bad = judge(ctx, "TsplibTrace", light, label=prop, chunk=20000)
    ctx.violations = []
    for i, c in bad: ctx.violation(c, recs[i], "")
    for q in recs[-3:]: ctx.sample(q)
    ctx.finish(assumptions=["fields precede sections; rows are listed in node order; explicit matrices are symmetric",
                            "Manhattan and maximum distances only for integer coordinates; geographical ones on one meridian or the equator"] if prop == "C21" else
               ["integer demands, capacities and limits; costs with at most two decimals; solution file names do not contradict the solution"])
