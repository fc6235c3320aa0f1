# -*- coding: utf-8 -*-
"""Shared machinery: instances, running the real code, TLC, verdicts, evidence.

Every check is   drive the real code (from /repo)  ->  JSON records  ->  TLC decides each
record with a module of /verif/spec  ->  verdict + evidence.  The Python side never
judges a record; it only encodes it (distances and demands scaled to integers exactly).
"""
import json, math, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys
import tempfile, time, traceback, warnings, io, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERYPY_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.dont_write_bytecode = True
if REPO not in sys.path: sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


# ----------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0
        self.samples = []; self.notes = {}; self.violations = []; self.known = []
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.log("tier=%s seed=%d" % (self.tier, self.seed))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time()-self.t0), *a); sys.stdout.flush()

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def rng(self, *salt):
        return random.Random("%s|%s|%s" % (self.seed, self.prop, "|".join(map(str, salt))))

    # a bad record: clause says which part of the specification rejects it
    def violation(self, clause, record, key=None):
        kf = match_known(self.prop, key or record.get("key", ""), clause)
        if kf is not None:
            self.known.append((kf, clause)); return
        self.violations.append((clause, record))

    def sample(self, rec):
        if len(self.samples) < 3: self.samples.append(rec)

    def finish(self, level="model_checking", assumptions=()):
        shutil.rmtree(self.tmp, ignore_errors=True)
        path = None
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        if self.violations:
            path = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump([dict(clause=c, record=r) for c, r in self.violations[:300]], f, indent=1, default=str)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time()-self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop+".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for text in sorted(set(k["what"] for k, _ in self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        self.log("traces=%d states=%d transitions=%d violations=%d" %
                 (self.traces, self.states, self.transitions, len(self.violations)))
        if self.violations:
            seen = {}
            for c, r in self.violations: seen.setdefault(c, []).append(r)
            for c, rs in list(seen.items())[:8]:
                print("  clause %r: %d record(s), e.g. %s" % (c, len(rs), json.dumps(rs[0], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush(); sys.exit(1)
        print("OK property=%s" % self.prop); sys.stdout.flush(); sys.exit(0)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)["findings"]

def match_known(prop, key, clause):
    for k in known_findings():
        if k.get("status") == "fixed" or k["property"] != prop: continue
        if k["key"] == key and k.get("clause", clause) == clause: return k
    return None


# ----------------------------------------------------------------- TLC
class TLCError(Exception): pass

def tlc(ctx, module, cfg=None, files=None, env=None, workers=NPROC, timeout=800, heap="6g",
        args=(), consts=None, expect_states=None, deadlock=False, simulate=None, deque=False):
    """Run TLC on spec/<module>.tla. Returns dict(out, bad, match, states, transitions).
    A non-zero TLC exit which is not an invariant/property violation is a machinery error."""
    wd = tempfile.mkdtemp(dir=ctx.tmp, prefix="tlc_")
    e = dict(os.environ)
    for k, v in (files or {}).items():
        p = os.path.join(wd, k + ".json")
        with open(p, "w") as f: json.dump(v, f, separators=(",", ":"))
        e[k] = p
    for k, v in (env or {}).items(): e[k] = str(v)
    cfgp = os.path.join(wd, "run.cfg")
    if cfg is None or "\n" in cfg:
        with open(cfgp, "w") as f: f.write(cfg or "INIT Init\nNEXT Next\n")
    else:
        shutil.copy(os.path.join(SPEC, cfg), cfgp)
    cmd = ["java", "-Xmx"+heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m",
           "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"]
    cmd = ["java", "-Xmx"+heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m"]
    if deque: cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JAVA_CP, "tlc2.TLC", "-metadir", os.path.join(wd, "m"), "-noGenerateSpecTE",
            "-workers", str(workers), "-config", cfgp]
    if not deadlock: cmd.append("-deadlock")
    if simulate: cmd += ["-simulate", simulate]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on %s" % module)
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    bad = [(int(a), b) for a, b in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out)]
    match = set(int(a) for a in re.findall(r'<<"MATCH", (\d+)>>', out))
    inv = re.findall(r"(?:Invariant|property|properties) (\w+)? ?(?:is|were) violated", out)
    res = dict(out=out, bad=bad, match=match, states=dist, transitions=gen, rc=r.returncode,
               violated=("is violated" in out or "were violated" in out), wall=time.time()-t)
    ok = r.returncode == 0 and "Error:" not in out
    if not ok and not res["violated"]:
        raise TLCError("TLC failed on %s (rc=%d):\n%s" % (module, r.returncode, tail_err(out)))
    if expect_states is not None and dist != expect_states:
        raise TLCError("TLC on %s: %d distinct states, expected %d\n%s" % (module, dist, expect_states, out[-2000:]))
    ctx.states += dist; ctx.transitions += gen
    shutil.rmtree(wd, ignore_errors=True)
    return res

def tail_err(out):
    i = out.find("Error:")
    return out[i:i+3000] if i >= 0 else out[-3000:]

def judge(ctx, module, recs, files=None, label=None, chunk=None, states=None, heap="6g", key=None, count=True):
    """Records -> TLC verdicts (module has Init/Next over tid; prints <<"BAD", tid, clause>>).
    Every record is decided: TLC must reach exactly the expected number of states."""
    if not recs: return []
    chunk = chunk or len(recs)
    nbad = []
    for s in range(0, len(recs), chunk):
        part = recs[s:s+chunk]
        f = dict(files or {}); f["VTRACE"] = part
        exp = (2*len(part)) if states is None else (states(part) if callable(states) else states)
        if exp == "any": exp = None
        r = tlc(ctx, module, files=f, expect_states=exp, heap=heap)
        for tid, clause in sorted(set(r["bad"])):
            nbad.append((s+tid-1, clause))
            ctx.violation(clause, part[tid-1], key(part[tid-1]) if key else None)
    if count: ctx.traces += len(recs)
    ctx.log("%s: %d records, %d rejected" % (label or module, len(recs), len(nbad)))
    return nbad


def mc(ctx, module, cfg, workers=NPROC, heap="6g", timeout=800, min_states=2, env=None):
    """Exhaustive check of a design model; its failure is an error of the specification."""
    r = tlc(ctx, module, cfg=cfg, workers=workers, heap=heap, timeout=timeout, env=env)
    if r["violated"] or r["states"] < min_states:
        raise TLCError("design model %s/%s fails:\n%s" % (module, cfg, tail_err(r["out"])))
    ctx.notes.setdefault("design_models", []).append(dict(module=module, cfg=cfg if "\n" not in cfg else "inline", states=r["states"], transitions=r["transitions"]))
    ctx.log("design model %s: %d states" % (module, r["states"]))
    return r


# ----------------------------------------------------------------- running the real code
class Hang(BaseException): pass

def _alarm(*a): raise Hang()

@contextlib.contextmanager
def quiet():
    """Silence chatter of the code under test (stdout/stderr of this process)."""
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try: yield
    finally: sys.stdout, sys.stderr = so, se

def call(f, *a, cpu=60, **k):
    """-> (kind, value): ("ret", v) | ("int", KeyboardInterrupt) | ("hang", None) | ("exc", "Type: msg @file:line")"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        with quiet():
            v = f(*a, **k)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return "ret", v
    except Hang:
        return "hang", None
    except KeyboardInterrupt as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return "int", e
    except BaseException as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        loc = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        return "exc", "%s: %s @%s" % (type(e).__name__, str(e)[:100], loc)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

def _pw(args):
    fn, i, x = args
    try:
        return i, fn(x), None
    except BaseException:
        return i, None, traceback.format_exc()

def pmap(fn, items, procs=NPROC, chunksize=1):
    """Ordered parallel map in forked workers; an exception in fn is a machinery error."""
    items = list(items)
    out = [None]*len(items)
    sys.stdout.flush(); sys.stderr.flush()
    with mp.get_context("fork").Pool(procs) as pool:
        for i, v, err in pool.imap_unordered(_pw, [(fn, i, x) for i, x in enumerate(items)], chunksize):
            if err: raise RuntimeError("worker failed on item %d:\n%s" % (i, err))
            out[i] = v
    return out


# ----------------------------------------------------------------- instances
def _np():
    import numpy as np
    return np

class Inst:
    """A CVRP instance with exact integer image (scale s): Di = s*D etc. C/L None <-> 0."""
    __slots__ = ("pts", "D", "d", "C", "L", "s", "n", "kind", "ewt", "Di", "di", "Ci", "Li", "seed")
    def tla(self):
        return dict(n=self.n, D=self.Di, d=self.di, C=self.Ci, L=self.Li)
    def brief(self):
        return dict(kind=self.kind, seed=self.seed, s=self.s, points=[list(map(float, p)) for p in self.pts],
                    ewt=self.ewt, **self.tla())
    def __getstate__(self): return {k: getattr(self, k) for k in self.__slots__}
    def __setstate__(self, st):
        for k, v in st.items(): setattr(self, k, v)

def metric_closure(M):
    n = len(M)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if M[i][k]+M[k][j] < M[i][j]: M[i][j] = M[i][k]+M[k][j]
    return M

def mat_int(pts, how, s=1):
    """integer matrix round-to-nearest / manhattan / ceil of s*distance"""
    n = len(pts); M = [[0]*n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            dx, dy = pts[i][0]-pts[j][0], pts[i][1]-pts[j][1]
            if how == "man": v = int(round(s*(abs(dx)+abs(dy))))
            elif how == "ceil": v = int(math.ceil(s*math.hypot(dx, dy)-1e-9))
            else: v = int(round(s*math.hypot(dx, dy)))
            M[i][j] = M[j][i] = v
    return M

def gen_points(r, n, grid, mode):
    if mode == "cluster":
        cs = [(r.randint(-grid, grid), r.randint(-grid, grid)) for _ in range(r.randint(1, 4))]
        w = max(1, grid//6)
        pts = []
        for _ in range(n+1):
            c = r.choice(cs); pts.append((c[0]+r.randint(-w, w), c[1]+r.randint(-w, w)))
        if r.random() < .5: pts[0] = (0, 0)
        return pts
    if mode == "corner":
        return [(0, 0)]+[(r.randint(0, grid), r.randint(0, grid)) for _ in range(n)]
    if mode == "ring":
        out = [(0, 0)]
        for k in range(n):
            a = 2*math.pi*(k+.3*r.random())/n
            rad = grid*(.6+.4*r.random())
            out.append((int(round(rad*math.cos(a))), int(round(rad*math.sin(a)))))
        return out
    if mode == "line":
        return [(r.randint(-grid, grid), 0) for _ in range(n+1)]
    return [(r.randint(-grid, grid), r.randint(-grid, grid)) for _ in range(n+1)]

def gen_inst(r, n=None, nmax=10, kinds=None, C="any", L="any", dem=None, grid=None, seed=None, coords=False):
    """One seeded instance, every customer alone within the limits.
    kinds: euc man ceil dyadic metric explicit. C/L: 'any' | 'none' | 'yes' | 'tight'"""
    np = _np()
    I = Inst(); I.seed = seed
    if n is None:
        n = r.choice(list(range(1, nmax+1)) + [nmax]*2)
    kind = r.choice(kinds or ["euc", "euc", "man", "ceil", "dyadic", "dyadic", "metric"])
    grid = grid or r.choice([2, 4, 10, 40, 40, 100, 100])
    mode = r.choice(["uniform", "uniform", "cluster", "corner", "ring", "line" if r.random() < .3 else "uniform"])
    pts = gen_points(r, n, grid, mode)
    if not coords and kind in ("euc", "dyadic") and r.random() < .4:
        pts = [(x+r.randint(0, 7)/8., y+r.randint(0, 7)/8.) for x, y in pts]
    s = 1
    if kind == "dyadic":
        s = 8; M = mat_int(pts, "euc", 8); I.ewt = "EXACT_2D"
    elif kind == "man": M = mat_int(pts, "man"); I.ewt = "MAN_2D"
    elif kind == "ceil": M = mat_int(pts, "ceil"); I.ewt = "CEIL_2D"
    elif kind == "metric":
        M = [[0]*(n+1) for _ in range(n+1)]
        lo = r.choice([0, 1, grid//2])
        for i in range(n+1):
            for j in range(i): M[i][j] = M[j][i] = r.randint(lo, max(lo, grid))
        M = metric_closure(M); I.ewt = "EXPLICIT"
    elif kind == "explicit":
        M = [[0]*(n+1) for _ in range(n+1)]
        for i in range(n+1):
            for j in range(i): M[i][j] = M[j][i] = r.randint(0, grid)
        I.ewt = "EXPLICIT"
    else: M = mat_int(pts, "euc"); I.ewt = "EUC_2D"
    if I.ewt == "EXPLICIT" and coords: I.ewt = "EUC_2D"
    # demands
    dem = dem or r.choice(["small", "small", "unit", "big", "zeros", "dyadic", "mixed"])
    if dem == "unit": di = [1]*n
    elif dem == "big": di = [r.randint(5, 10) for _ in range(n)]
    elif dem == "zeros": di = [r.choice([0, 0, 1, 3, 5]) for _ in range(n)]
    elif dem == "mixed": di = [r.choice([1, 2, 3, 9, 10]) for _ in range(n)]
    else: di = [r.randint(1, 10) for _ in range(n)]
    if n and not any(di): di[r.randrange(n)] = 1     # some customer has a demand
    sd = 4 if dem == "dyadic" else 1
    if sd == 4: di = [4*x+r.choice([0, 1, 2, 3]) for x in di]
    di = [0]+di
    mx = max(di) or 1
    # capacity
    if C == "any": C = r.choice(["none", "yes", "yes", "tight"])
    Ci = 0
    if C == "yes":
        Ci = max(mx, r.choice([mx, 10*sd, 15*sd, 20*sd, 30*sd, 100*sd]))
    elif C == "tight":
        K = r.randint(1, max(1, n))
        Ci = max(mx, -(-sum(di)//K))
    if Ci and r.random() < .15 and n > 1:   # exactly the load of some subset
        sub = r.sample(range(1, n+1), r.randint(1, n)); Ci = max(mx, sum(di[i] for i in sub))
    # route cost limit
    trip = max(2*x for x in M[0]) if n else 0
    if L == "any": L = r.choice(["none", "none", "yes", "tight"])
    Li = 0
    if L != "none" and trip > 0:
        if L == "tight": Li = trip+r.choice([0, 0, 1, s, trip//10])
        else:
            Li = max(trip, int(trip*r.choice([1, 1.1, 1.25, 1.5, 2, 3])))
        if r.random() < .3 and n > 1:       # exactly the cost of some route
            q = r.sample(range(1, n+1), r.randint(1, min(n, 6))); q = [0]+q+[0]
            Li = max(trip, sum(M[q[k]][q[k+1]] for k in range(len(q)-1)))
    I.pts = [tuple(float(c) for c in p) for p in pts]
    I.kind = kind+"/"+mode+"/"+dem; I.n = n; I.s = s
    I.Di, I.di, I.Ci, I.Li = M, di, Ci, Li
    finish_inst(I, s, sd, r)
    return I

def finish_inst(I, s, sd, r=None):
    np = _np()
    if s == 1:
        I.D = np.array(I.Di, dtype=float if (r is not None and r.random() < .2) else int)
        I.L = I.Li or None
    else:
        I.D = np.array(I.Di, dtype=float)/s
        I.L = (I.Li/float(s)) or None
    if sd == 1:
        I.d = list(I.di); I.C = I.Ci or None
        if r is not None and r.random() < .2: I.d = [float(x) for x in I.d]
    else:
        I.d = [x/float(sd) for x in I.di]; I.C = (I.Ci/float(sd)) or None
    return I

def plan(sol):
    """list of ints of a returned giant tour, or None if it is not one"""
    try:
        return [int(x) for x in sol]
    except Exception:
        return None

def gurobi_ok():
    try:
        import gurobipy  # noqa
        return True
    except Exception:
        return False
