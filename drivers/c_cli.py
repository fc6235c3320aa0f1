# -*- coding: utf-8 -*-
"""C23: the command line reports exactly what the solvers produced."""
import pickle, re, tempfile
from fractions import Fraction
from c_moves import *
from vlib import _np

# ------------------------------------------------------------ problem files
def mk_problem(r, name, n=None):
    n = n or r.choice([1, 2, 3, 3, 4, 5, 6])
    how = r.choice(["D", "D", "xy", "xy", "xyexact"])
    grid = r.choice([2, 6, 30])
    f = dict(name=name, n=n, how="D" if how == "D" else "xy", D=[], xy=[], rnd="near", typ="EXPLICIT", coords=False)
    f["xy"] = [[r.randint(0, grid), r.randint(0, grid)] for _ in range(n+1)]
    if how == "D":
        hi = r.choice([3, 20, 400]); lo = r.choice([0, 1])
        M = [[0]*(n+1) for _ in range(n+1)]
        for i in range(n+1):
            for j in range(i): M[i][j] = M[j][i] = r.randint(lo, hi)
        if r.random() < .5: metric_closure(M)
        f["D"] = M; f["coords"] = r.random() < .4
        f["typ"] = "EXPLICIT"
    elif how == "xy":
        f["typ"], f["rnd"] = r.choice([("EUC_2D", "near"), ("EUC_2D", "near"), ("CEIL_2D", "up")]); f["coords"] = True
    else:
        f["typ"] = "EXACT_2D"; f["coords"] = True       # only with -D
    f["d"] = [0]+[r.randint(0, 9) for _ in range(n)]
    if max(f["d"]) == 0: f["d"][1] = 1
    f["C"] = r.choice([0, r.randint(max(f["d"]), max(2*max(f["d"]), sum(f["d"]))), r.randint(1, 30)])
    f["L"] = r.choice([0, 0, r.randint(1, 3*grid*4)])
    f["st"] = r.choice([0, 0, 1, 2, 5, 10])
    return f

def write_problem(r, f, path):
    m = f["n"]+1
    if path.endswith(".pickle"):
        np = _np()
        from verypy.cvrp_io import calculate_D
        pts = [tuple(p) for p in f["xy"]] if f["coords"] else None
        D = np.array(f["D"]) if f["how"] == "D" else calculate_D(pts, None, f["typ"])
        with open(path, "wb") as fh:
            pickle.dump((f["n"], pts, None, f["d"], D, f["C"] or None, f["typ"], None, f["L"] or None, f["st"] or None), fh)
        return
    o = ["NAME: q", "COMMENT: made", "TYPE: CVRP", "DIMENSION: %d" % m, "EDGE_WEIGHT_TYPE: %s" % f["typ"]]
    if f["C"]: o.append("CAPACITY: %d" % f["C"])
    if f["L"]: o.append("DISTANCE: %d" % f["L"])
    if f["st"]: o.append("SERVICE_TIME: %d" % f["st"])
    if f["typ"] == "EXPLICIT":
        o += ["EDGE_WEIGHT_FORMAT: FULL_MATRIX", "EDGE_WEIGHT_SECTION"]+[" ".join(map(str, row)) for row in f["D"]]
    if f["coords"]:
        o += ["NODE_COORD_SECTION"]+["%d %d %d" % (i+1, x, y) for i, (x, y) in enumerate(f["xy"])]
    o += ["DEMAND_SECTION"]+["%d %d" % (i+1, q) for i, q in enumerate(f["d"])]
    o += ["DEPOT_SECTION", "1", "-1", "EOF"]
    with open(path, "w") as fh: fh.write("\n".join(o)+"\n")

def mk_plan(r, n):
    """a tour in any shape a heuristic may hand over: complete, partial, infeasible, doubled depots"""
    cs = list(range(1, n+1)); r.shuffle(cs)
    y = r.random()
    if y < .12 and n > 1: cs = cs[:r.randint(1, n-1)]
    elif y < .18: cs = cs+[r.choice(cs)]
    k = r.choice([1, 1, 2, 2, 3, n]); t = [0]; cut = set(r.randint(0, len(cs)) for _ in range(k-1)) if k < n else set(range(len(cs)))
    for i, c in enumerate(cs):
        if i in cut and t[-1] != 0: t.append(0)
        t.append(c)
    t.append(0)
    if r.random() < .15: t = t[:1]+t
    if r.random() < .15: t = t+[0]
    return t

def mk_outcome(r, n, ls, p_int):
    y = r.random()
    if y < p_int: k = r.choice(["int", "intsol", "intsol"]+(["intls"] if ls else []))
    elif y < p_int+.12: k = "exc"
    elif y < p_int+.22: k = "none"
    else: k = "sol"
    return dict(k=k, sol=mk_plan(r, n) if k in ("sol", "intsol", "intls") else [], v=r.randrange(4))

# ----------------------------------------------------------------- stand-ins
class Boom(Exception): pass

def trap_postopt():
    """the user's Ctrl-C in the middle of post-optimisation"""
    def tr(frame, ev, arg):
        if ev == "call" and frame.f_code.co_name in ("do_2opt_move", "do_3opt_move"):
            sys.settrace(None); raise KeyboardInterrupt()
        return None
    sys.settrace(tr)

def scaled(x, m):
    """exact m*x or a marker"""
    try: q = Fraction(x)*m
    except (TypeError, ValueError, OverflowError):
        try: q = Fraction(float(x))*m
        except (ValueError, OverflowError): return -1 if x == float("inf") else -999
    return int(q) if q.denominator == 1 and abs(q) < 10**9 else -999

def seen_args(ab, points, D, d, C, L, st, wtt, one, mk):
    pts = [[scaled(x, 1) for x in p] for p in points] if points is not None else []
    return dict(ab=ab, D=[[scaled(x, 2) for x in row] for row in D], d=[scaled(x, 1) for x in d] if d is not None else [],
                C=scaled(C or 0, 1), L=scaled(L or 0, 1), st=scaled(st or 0, 1), npts=len(pts), pts=pts, one=bool(one), mk=bool(mk), wtt=str(wtt))

def play(o):
    v = o["v"]
    if o["k"] == "none": return [None, [], None, None][v]
    if o["k"] == "exc": raise [Boom("no"), NotImplementedError("L is not supported"), ValueError("x %s"), AssertionError()][v]
    if o["k"] == "int": raise [KeyboardInterrupt(), KeyboardInterrupt(None), KeyboardInterrupt("stop"), KeyboardInterrupt()][v]
    if o["k"] == "intsol": raise KeyboardInterrupt(list(o["sol"]))
    if o["k"] == "intls": trap_postopt()
    return list(o["sol"])

def patched(old, new):
    """replace a function wherever the package refers to it"""
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] != "verypy": continue
        for a, x in list(vars(m).items()):
            if x is old: setattr(m, a, new)

# ------------------------------------------------------------------- parsing
NUM = r"[-+0-9.einfa]+"
def fig(x, m):
    x = x.strip()
    if x in ("inf", "Infinity"): return -1
    try: return scaled(Fraction(x), m)
    except ValueError: return -999
def ints(x): return [int(q) for q in re.findall(r"-?\d+", re.sub(r"np\.int\d+", "", x))]
def none0(x): return 0 if x.strip() in ("None", "0") else fig(x, 1)

def parse_solutions(lines):
    """printed solutions of one block of output"""
    out = []; p = None; table = False; it = iter(range(len(lines)))
    head = dict(cap=-2, lim=-2)
    for i in it:
        l = lines[i]
        def after(tag): return l[len(tag):].strip() if l.startswith(tag) else None
        if after("CAPACITY:") is not None: head["cap"] = none0(after("CAPACITY:"))
        if after("DISTANCE:") is not None: head["lim"] = none0(after("DISTANCE:"))
        if after("SOLUTION:") is not None:
            p = dict(sol=ints(after("SOLUTION:")), feas=-2, served=-2, capok=-2, lenok=-2, K=-2, cost=-2, len=-2, vrph=[], rows=[], total=[], **head)
            out.append(p); table = False
        if p is None: continue
        for tag, key in (("ALL SERVED:", "served"), ("IS C FEASIBLE:", "capok"), ("IS L FEASIBLE:", "lenok"), ("FEASIBLE:", "feas")):
            if after(tag) is not None: p[key] = {"True": 1, "False": 0}.get(after(tag), -3)
        if after("SOLUTION K:") is not None: p["K"] = int(after("SOLUTION K:"))
        if after("SOLUTION COST:") is not None: p["cost"] = fig(after("SOLUTION COST:"), 2)
        if after("SOLUTION LENGTH:") is not None: p["len"] = fig(after("SOLUTION LENGTH:"), 2)
        if after("ROUTES:") is not None: table = True
        c = l.split("\t")
        if table and len(c) >= 5 and c[0].strip().isdigit():
            p["rows"].append(dict(cost=fig(c[1], 2), len=fig(c[2], 2), load=-1 if c[3].strip() == "-" else fig(c[3], 1), route=ints(c[4])))
        if table and c[0].strip() == "Total": p["total"] = [fig(c[1], 2), fig(c[2], 2)]; table = False
        if after("SOLUTION IN VRPH FORMAT:") is not None and i+1 < len(lines): p["vrph"] = ints(lines[i+1])[1:]     # after the size
    return out

def parse_full(text, algos, names):
    """-> observations per attempt, collected table"""
    i = text.find("\ninstance\t"); body, tail = (text, "") if i < 0 else (text[:i], text[i+1:])
    obs = []
    for part in re.split(r"(?m)^Solving ", body)[1:]:
        first, _, rest = part.partition("\n")
        m = re.match(r"(.+?) with (.*)$", first)
        ps = parse_solutions(rest.split("\n"))
        pct = re.search(r"improved by ([-0-9.]+)%", rest)
        obs.append(dict(file=m.group(1) if m else first, alg=m.group(2) if m else "", got=len(ps), p=ps[0] if ps else {}, pct=fig(pct.group(1), 100) if pct else -1))
    table = []
    if tail:
        ls = [l for l in tail.split("\n") if l.strip()]
        hd = ls[0].split("\t")
        for l in ls[1:]:
            c = [x.strip() for x in l.split("\t")]
            fields = dict(zip(["file", "N", "K", "C", "tight", "L", "st"], c))
            g = lambda k: -9 if fields.get(k, "-") == "-" else none0(fields[k])
            table.append(dict(file=fields["file"], N=g("N"), K=g("K"), C=g("C"), L=g("L"), st=g("st"), tight=0 if fields.get("tight", "-") in ("-", "None") else fig(fields["tight"], 1000),
                              cells=[dict(alg=a.strip().split("+")[0] if False else a.strip(), v=(-5 if x == "-" else fig(x, 2))) for a, x in zip(hd[7:], c[7:])]))
    return obs, table

def parse_min(text):
    obs = []
    for l in text.split("\n")[1:]:
        c = l.strip().split(";")
        if len(c) < 6: 
            if l.strip(): obs.append(dict(alg=l.strip()[:40], file="?", feas=-3, f=-3, K=-3, star=-3))
            continue
        obs.append(dict(alg=c[0], file=c[1], feas={"True": 1, "False": 0}.get(c[2], -3), f=fig(c[3], 2), K=fig(c[4], 1), star=1 if c[5].endswith("*") else 0))
    return obs

# ---------------------------------------------------------------------- runs
def captured(fn):
    """run fn with captured output; -> (stdout, stderr, kind, value)"""
    so, se = sys.stdout, sys.stderr; o, e = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = o, e
    try: kind, v = "ret", fn()
    except KeyboardInterrupt as x: kind, v = "int", x
    except SystemExit as x: kind, v = "exit", "exit %s" % x.code
    except BaseException as x:
        tb = traceback.extract_tb(x.__traceback__)
        kind, v = "exc", "%s: %s @%s:%d" % (type(x).__name__, str(x)[:100], os.path.basename(tb[-1].filename), tb[-1].lineno)
    finally:
        sys.settrace(None); sys.stdout, sys.stderr = so, se
    return o.getvalue(), e.getvalue(), kind, v

def names_pool():
    import verypy
    return sorted(verypy.algo_name_aliases)

def anycase(r, s): return r.choice([s, s, s.upper(), s.title(), "".join(r.choice([c, c.upper()]) for c in s)])

def run_main(j):
    import verypy, verypy.VeRyPy
    r = random.Random(j["seed"]); td = tempfile.mkdtemp(prefix="vp_cli_")
    try:
        nf = r.choice([1, 1, 2, 2, 3, 4]); full = r.random() < .55
        rounding = r.choice([None, None, None, "EXACT", "ROUND", "TRUNCATE"])
        files = []; taken = set()
        for k in range(nf):
            nm = "%s%d" % (r.choice(["p", "E-n", "b_"]), r.choice([1, 2, 3, 7, 10, 11, 20, 100]))
            if nm in taken: continue
            taken.add(nm)
            f = mk_problem(r, nm)
            if f["typ"] == "EXACT_2D":
                if rounding == "ROUND": f["rnd"] = "near"
                elif rounding == "TRUNCATE": f["rnd"] = "down"
                else: f["typ"] = "EUC_2D"
            f["wtt"] = {"ROUND": "EUC_2D", "TRUNCATE": "FLOOR_2D"}.get(rounding, f["typ"])
            f["ext"] = r.choice([".vrp", ".vrp", ".tsp", ".pickle"]); files.append(f)
        # layout: a folder, one file, or a list of files
        lay = r.choice(["dir", "dir", "list"]) if len(files) > 1 else r.choice(["file", "file", "dir", "list"])
        for f in files:
            f["path"] = os.path.join(td, f["name"]+f["ext"]); write_problem(r, f, f["path"])
        if lay == "dir":
            nk = lambda s: [int(x) if x.isdigit() else x for x in re.split("([0-9]+)", s.lower())]
            files.sort(key=lambda f: ([".vrp", ".tsp", ".pickle"].index(f["ext"]), nk(f["name"]))); target = td
        elif lay == "list":
            target = os.path.join(td, "todo.txt")
            with open(target, "w") as fh:
                fh.write("\n".join(("  " if r.random() < .2 else "")+f["path"]+r.choice(["", " "]) for f in files)+"\n")
                if r.random() < .3: fh.write(os.path.join(td, "missing.vrp")+"\n")
        else: target = files[0]["path"]
        # heuristics
        pool = names_pool(); typed = []; sel = set()
        table = verypy.algo_name_aliases
        if j.get("group"): typed.append(r.choice(["all", "classical", "classic"])); sel = set(table.values())
        for _ in range(0 if j.get("group") else r.choice([1, 1, 2, 2, 3])):
            x = r.choice(pool)
            if table[x] in sel or table[x] in ("all", "classical"): continue
            sel.add(table[x]); typed.append(x)
        if not typed: typed = ["ps"]
        if r.random() < .1: typed.insert(r.randint(0, len(typed)), r.choice(["zz", "p s", "none"]))
        if r.random() < .25: r.shuffle(typed)
        forbid = []
        if r.random() < (.7 if j.get("group") else .25):
            forbid = r.sample([x for x in pool if table[x] not in ("all", "classical")], r.choice([1, 2, 3]))
            if r.random() < .2: forbid.append("nosuch")
        shown = [anycase(r, x) for x in typed]
        args = []
        for x in shown: args += ["-a", x]
        for x in forbid: args += ["--forbid", anycase(r, x)]
        ls = r.choice([[], [], [], ["2opt"], ["3opt"], ["2opt", "3opt"]])
        for x in ls: args += ["--post-optimize", x]
        sim = r.random() < .06; costs = r.random() < .4; mkk = r.choice([None, None, "c", "cost", "K", "vehicles"]); one = r.random() < .3
        vrph = full and r.random() < .4; routes = full and r.random() < .4
        if not full: args.append("-m")
        if sim: args.append("--simulate")
        if costs: args.append("-c")
        if mkk: args += ["-b", mkk]
        if one: args.append("-1")
        if vrph: args.append("--vrph")
        if routes: args.append("--routes")
        if rounding: args += ["-D", rounding]
        if r.random() < .2: args.append("-t")
        if r.random() < .2: args.append("--iinfo")
        args.append(target)
        real = verypy.get_algorithms
        got = {}; calls = []; count = {}; out = [dict() for _ in files]
        p_int = r.choice([0, 0, 0, .15, .4])
        fid = r.choice(["list", "tuple"])
        def scripted(ab):
            def h(points, D, d, C, L, st, wtt, single=False, minimize_K=False):
                k = count.get(ab, 0); count[ab] = k+1
                calls.append(seen_args(ab, points, D, d, C, L, st, wtt, single, minimize_K))
                return play(out[k][ab])
            return h
        def stand_in(names="all"):
            al = real(names)
            for a in al:
                got[a[0]] = a[1]
            return [(a[0], a[1], a[2], scripted(a[0])) for a in al]
        everything = [(a[0], a[1]) for a in real(["all"])]
        for k, f in enumerate(files):
            for ab, _ in everything: out[k][ab] = mk_outcome(r, f["n"], ls, p_int)
        patched(real, stand_in)
        try: so, se, kind, v = captured(lambda: verypy.VeRyPy.main(args))
        finally: patched(stand_in, real)
        # what the names mean is judged by the specification; here only the order of the outcome table
        order = []
        for x in typed: order += [a for a in ([b for b, _ in everything] if x == "all" else [b for b, _ in everything if b not in ("ps2o", "si", "pi", "sn", "pn", "swp")] if x in ("classical", "classic") else [table[x]] if x in table else [])]
        order = [a for a in order if a not in [table.get(x) for x in forbid]]
        nm = dict(everything)
        lsl = "+".join(ls)
        algos = [dict(ab=a, name=nm[a]) for a in order]
        q = dict(what="run", key="main", files=[dict((k, f[k]) for k in ("name", "n", "how", "D", "xy", "d", "C", "L", "st", "rnd", "wtt")) for f in files],
                 algos=algos, typed=[x.lower() for x in typed], forbid=[x.lower() for x in forbid], sim=sim, mk=mkk in ("K", "vehicles"), one=one, ls=ls, costs=costs,
                 full=full, terse=False, vrph=vrph, routes=routes, out=[[dict(k=out[k][a]["k"], sol=out[k][a]["sol"]) for a in order] for k in range(len(files))],
                 calls=calls, failed="" if kind == "ret" else str(v) or kind, obs=[], table=[], args=args[:-1]+[lay])
        if full:
            q["obs"], q["table"] = parse_full(so, algos, nm)
            for t in q["table"]:
                for c in t["cells"]:
                    if ls and c["alg"].endswith("+"+lsl): c["alg"] = c["alg"][:-len(lsl)-1]
        else: q["obs"] = parse_min(so)
        q["err"] = se[-300:] if kind != "ret" else ""
        return q
    finally: shutil.rmtree(td, ignore_errors=True)

def run_solo(j):
    import verypy.shared_cli as S
    r = random.Random(j["seed"]); td = tempfile.mkdtemp(prefix="vp_solo_")
    try:
        cmd = r.random() < .5; nf = r.choice([1, 2, 3]) if cmd else 1
        files = []
        for k in range(nf):
            f = mk_problem(r, "s%d" % (k+1))
            if f["typ"] == "EXACT_2D": f["typ"] = "EUC_2D"
            f["wtt"] = f["typ"]
            f["path"] = os.path.join(td, f["name"]+".vrp"); write_problem(r, f, f["path"]); files.append(f)
        n = r.choice([1, 1, 2, 3, 4]); mk = r.random() < .4; one = r.random() < .3
        p_int = r.choice([0, 0, .2])
        out = []
        for f in files:
            o = [mk_outcome(r, f["n"], [], p_int) for _ in range(n)]
            for x in o:
                if x["k"] == "exc": x["k"] = "none"
            out.append(o)
        calls = [[] for _ in files]; at = [0]
        def h(points, D, d, C, L, st, wtt, single=False, minimize_K=False):
            while at[0] < len(files)-1 and len(calls[at[0]]) >= n: at[0] += 1
            k = at[0]; calls[k].append(seen_args("h", points, D, d, C, L, st, wtt, single, minimize_K))
            return play(out[k][len(calls[k])-1] if len(calls[k]) <= n else dict(k="none", v=0))
        ret = dict(none=True, sol=[], len=0, cost=0)
        if cmd:
            target = td if nf > 1 else files[0]["path"]
            verb = r.choice([0, 0, 1, 2]); argv = ["prog", "-v", str(verb)]
            if n > 1 or r.random() < .5: argv += ["-n", str(n)]
            if one: argv.append("-1")
            if mk: argv += ["-b", r.choice(["K", "k", "vehicles", "Vehicles"])]
            elif r.random() < .3: argv += ["-b", r.choice(["c", "cost", "Cost"])]
            if r.random() < .3: argv.append("-t")
            argv.append(target)
            old = sys.argv; sys.argv = argv
            try: so, se, kind, v = captured(lambda: S.cli("H", "stand-in", h))
            finally: sys.argv = old
            parts = re.split(r"(?m)^Solve ", so)[1:]
            obs = []
            for k, part in enumerate(parts):
                ps = parse_solutions(part.split("\n"))
                nm = part.split(" with ")[0].replace(".vrp", "").strip()
                obs.append(dict(file=nm, got=len(ps), p=ps[0] if ps else {}, calls=calls[k] if k < len(calls) else []))
        else:
            verb = r.choice([0, 0, 1, 2])
            so, se, kind, v = captured(lambda: S.read_and_solve_a_problem(files[0]["path"], h, mk, n, verb, one))
            ps = parse_solutions(so.split("\n"))
            obs = [dict(file=files[0]["name"], got=len(ps), p=ps[0] if ps else {}, calls=calls[0])]
            if kind == "ret": ret = dict(none=False, sol=[int(x) for x in v[0]] if v[0] is not None else [], len=scaled(v[1], 2), cost=scaled(v[2], 2))
        for o in obs:
            for c in o["calls"]: c["ab"] = "h"
        return dict(what="solo", key="cli" if cmd else "read_and_solve", files=[dict((k, f[k]) for k in ("name", "n", "how", "D", "xy", "d", "C", "L", "st", "rnd", "wtt")) for f in files],
                    mk=mk, one=one, out=[[dict(k=x["k"], sol=x["sol"]) for x in o] for o in out], obs=obs, ret=ret, raised=kind == "int", failed="" if kind in ("ret", "int") else str(v), n=n, terse=verb == 0)
    finally: shutil.rmtree(td, ignore_errors=True)

def nat(name):
    k = []
    for i, t in enumerate(re.split("([0-9]+)", name.lower())): k += [int(t)] if i % 2 else [ord(c) for c in t]+[0]
    return k

def run_files(j):
    import verypy.shared_cli as S
    r = random.Random(j["seed"]); td = tempfile.mkdtemp(prefix="vp_tree_")
    try:
        dirs = [""]
        for k in range(r.choice([0, 1, 2, 3, 4, 6])):
            dirs.append(os.path.join(r.choice(dirs), "%s%d" % (r.choice("ab"), k)))
        tree = []; used = set()
        for k in range(r.choice([0, 2, 5, 9])):
            dn = r.choice(dirs); ext = r.choice(["vrp", "vrp", "tsp", "pickle", "txt", "dat"])
            nm = r.choice(["p", "P", "x", "E-n", "p1_"])+str(r.choice([1, 2, 3, 9, 10, 11, 100, 21]))+r.choice(["", "", "-k5", "-k12", "b"])
            if (dn, nm.lower(), ext) in used: continue
            used.add((dn, nm.lower(), ext)); tree.append(dict(dir=dn, ext=ext, key=nat(nm+"."+ext), nm=nm+"."+ext, id=0))
        for i, t in enumerate(tree): t["id"] = i+1; t["path"] = os.path.join(td, t["dir"], t["nm"])
        for dn in dirs: os.makedirs(os.path.join(td, dn), exist_ok=True)
        for t in tree: open(t["path"], "w").close()
        rec = r.random() < .55
        given = []; paths = []
        roots = [""] if rec or r.random() < .6 else r.sample(dirs, min(len(dirs), r.choice([1, 2])))
        if rec and len(dirs) > 2 and r.random() < .4:      # several roots, none inside another
            tops = [x for x in dirs if x and os.sep not in x]
            if tops: roots = r.sample(tops, min(len(tops), 2))
        items = [("dir", x) for x in roots]
        for _ in range(r.choice([0, 0, 1, 2])):
            y = r.random()
            if y < .4 and tree: items.append(("file", r.choice(tree)))
            elif y < .8: items.append(("list", [r.choice(tree+[None]) if tree else None for _ in range(r.randint(0, 3))]))
            else: items.append(("none", None))
        if rec: items = items[:len(roots)]+[x for x in items[len(roots):] if x[0] == "none"]
        r.shuffle(items)
        for k, x in items:
            if k == "dir": paths.append(os.path.join(td, x) if x else td); given.append(dict(k="dir", at=x, list=[]))
            elif k == "file":
                # a list file of the tree is an empty list
                paths.append(x["path"]); given.append(dict(k="file", at="", list=[x["id"]] if x["ext"] in ("vrp", "tsp", "pickle") else []))
            elif k == "list":
                fd, pth = tempfile.mkstemp(suffix=r.choice([".txt", ".TXT"]), dir=tempfile.gettempdir()); os.close(fd)
                with open(pth, "w") as fh:
                    for t in x: fh.write(r.choice(["", " "])+(t["path"] if t else os.path.join(td, "gone.vrp"))+r.choice(["\n", " \n", "\n\n"]))
                paths.append(pth); given.append(dict(k="list", at="", list=[t["id"] for t in x if t]))
            else: paths.append(os.path.join(td, "nothing%d" % r.randint(0, 9))); given.append(dict(k="none", at="", list=[]))
        subs = sorted(x for x in dirs if x and any((not g) or x.startswith(g+os.sep) for g in roots)) if rec else []
        before = list(paths)
        so, se, kind, v = captured(lambda: S.get_a_problem_file_list(paths, rec) if rec or r.random() < .5 else S.get_a_problem_file_list(paths))
        ids = dict((os.path.normpath(t["path"]), t["id"]) for t in tree)
        for p_, g in zip(before, given):
            if g["k"] == "list": os.unlink(p_)
        return dict(what="files", key="files", tree=[dict((k, t[k]) for k in ("dir", "ext", "key", "id")) for t in tree], given=given, subs=subs, recursive=rec,
                    found=[ids.get(os.path.normpath(x), 0) for x in v] if kind == "ret" else [], failed="" if kind == "ret" else str(v), before=len(before), after=len(paths), names=[t["dir"]+"/"+t["nm"] for t in tree])
    finally: shutil.rmtree(td, ignore_errors=True)

def run_names(j):
    import verypy
    r = random.Random(j["seed"]); pool = names_pool()
    typed = j.get("typed") or [r.choice(pool+["zz", "", "ps ", "alle"]) for _ in range(r.choice([1, 2, 3]))]
    arg = [anycase(r, x) for x in typed]
    so, se, kind, v = captured(lambda: verypy.get_algorithms(arg[0] if len(arg) == 1 and r.random() < .5 else arg))
    return dict(what="names", key="names", typed=[x.lower() for x in typed], got=[a[0] for a in v] if kind == "ret" else ["?"], arg=arg, msg="" if kind == "ret" else str(v))

DO = dict(run=run_main, solo=run_solo, files=run_files, names=run_names)
def many(js): return [DO[j["do"]](j) for j in js]

def main(prop):
    ctx = Ctx(prop)
    with quiet():
        import verypy, verypy.VeRyPy, verypy.shared_cli
        verypy.get_algorithms(["all"])
    mc(ctx, "CliMC", "CliMC.cfg")
    if ctx.tier == "thorough": mc(ctx, "CliMC", open(os.path.join(SPEC, "CliMC.cfg")).read().replace("NA = 2", "NA = 3"))
    r = ctx.rng("cli"); jobs = []
    for what, w in (("run", ctx.n(1500, 15000)), ("solo", ctx.n(800, 8000)), ("files", ctx.n(800, 8000)), ("names", ctx.n(200, 2000))):
        for k in range(w): jobs.append(dict(do=what, seed="%s|%s|%d" % (ctx.seed, what, k), group=(what == "run" and k % 40 == 0)))
    for x in names_pool(): jobs.append(dict(do="names", seed="alias "+x, typed=[x]))
    recs = [q for part in pmap(many, chunks(jobs, 10)) for q in part]
    ctx.log("ran %d" % len(recs))
    bare = [dict((k, v) for k, v in q.items() if k not in ("args", "err", "names", "arg", "msg", "key", "n")) for q in recs]
    res = tlc(ctx, "CliTrace", files={"VTRACE": bare})
    judged = set(t for t, _ in res["bad"]) | res["match"]
    if judged != set(range(1, len(recs)+1)): raise TLCError("CliTrace decided %d of %d records" % (len(judged), len(recs)))
    for t, c in sorted(set(res["bad"])): ctx.violation(c, recs[t-1], recs[t-1]["key"])
    ctx.traces += len(recs)
    ctx.notes["kinds"] = dict((w, sum(1 for q in recs if q["what"] == w)) for w in DO)
    runs = [q for q in recs if q["what"] == "run"]
    ctx.notes["outcomes"] = dict((k, sum(1 for q in runs for row in q["out"] for o in row if o["k"] == k)) for k in ("sol", "none", "exc", "int", "intsol", "intls"))
    ctx.notes["collected_tables"] = sum(1 for q in runs if q["table"])
    ctx.notes["interrupted_runs"] = sum(1 for q in runs if any(o["k"].startswith("int") for row in q["out"] for o in row))
    for q in runs[:2]+[q for q in recs if q["what"] == "solo"][:1]: ctx.sample(q)
    ctx.log("%d records, %d rejected" % (len(recs), len(set(res["bad"]))))
    ctx.finish(assumptions=["heuristics are scripted stand-ins handed out by the real name resolution, so every outcome sequence is reachable", "whole-number distances and service times, so printed figures are exact"])
