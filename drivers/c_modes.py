# -*- coding: utf-8 -*-
"""C28: -O, logging and hash randomisation never change what a call returns."""
import pickle, tempfile, subprocess, json, re, shutil
from c_hist import *
from c_cli import mk_problem, write_problem
HERE = os.path.dirname(os.path.abspath(__file__))
# name, python flags, log level, hash seed
MODES = [("plain", [], "none", "0"), ("python -O", ["-O"], "none", "0"), ("log level 1", [], "1", "0"), ("log level 3 to a file", [], "3", "0"),
         ("log level 9", [], "9", "0"), ("another hash seed", [], "none", "77"), ("python -O at log level 9", ["-O"], "9", "5")]

def env_of(hs):
    e = dict(os.environ); e.update(PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e

def run_part(x):
    """one process: a share of the jobs in one mode -> results (None where the process gave none)"""
    part, mode, jobs = x
    W = tempfile.mkdtemp()
    try:
        jf, out = os.path.join(W, "jobs"), os.path.join(W, "out")
        pickle.dump(jobs, open(jf, "wb"))
        try: subprocess.run([sys.executable, "-W", "ignore"]+mode[1]+[os.path.join(HERE, "modeproc.py"), jf, out, mode[2]], cwd=W, env=env_of(mode[3]),
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=700)
        except subprocess.TimeoutExpired: pass
        res = json.load(open(out)) if os.path.exists(out) else ["missing"]*len(jobs)
    finally: shutil.rmtree(W)
    return part, mode[0], res

TELLS = re.compile(r"^(SOLUTION|SOLUTION K|SOLUTION LENGTH|SIZE|CAPACITY|DISTANCE|SERVICE_TIME|Solving.*|Solve .*|instance|q[0-9]*)\b.*$", re.M)
CLIMODES = [("plain", [], [], "0"), ("python -O", ["-O"], [], "0"), ("-v 1", [], ["-v", "1"], "0"), ("-v 3", [], ["-v", "3"], "0"), ("python -O -v 2, another hash seed", ["-O"], ["-v", "2"], "9")]
def verdicts(o):
    """the feasibility verdict of each plan, in one line or in its parts depending on the verbosity"""
    out = []
    for part in o.split("\nSOLUTION:")[1:]:
        v = re.findall(r"^(?:FEASIBLE|ALL SERVED|IS C FEASIBLE|IS L FEASIBLE): (\w+)", part, re.M)
        out.append("feasible" if v and set(v) == {"True"} else "infeasible")
    return "\n"+" ".join(out)
def run_cli(x):
    f, args, seed = x
    W = tempfile.mkdtemp(); res = []
    try:
        p = os.path.join(W, "q%d.vrp" % seed); write_problem(random.Random(seed), f, p)
        for name, fl, more, hs in CLIMODES:
            try:
                c = subprocess.run([sys.executable, "-W", "ignore"]+fl+["-m"]+args+more+[p], cwd=W, env=env_of(hs), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
                o = c.stdout.decode("utf-8", "replace")
                o = o.replace("\r", "")
                res.append("exit %d\n" % c.returncode+"\n".join(m.group(0).rstrip() for m in TELLS.finditer(o) if not m.group(0).startswith("SOLUTION COST"))+verdicts(o))
            except subprocess.TimeoutExpired: res.append("missing")
    finally: shutil.rmtree(W)
    return res

def main(prop):
    ctx = Ctx(prop)
    mc(ctx, "HistoryMC", "HistoryMC.cfg")
    have = preload(ALL)
    r = ctx.rng("modes"); jobs = []
    weights = {a: 2 if a in FAST else 1 for a in have}
    names = [a for a in have for _ in range(weights[a])]
    fams = ["cmt", "ci", "mj", "nn", "tyagi", "gpl", "gps", "ims", "ss", "lr3o", "rfcs", "swp", "gm", "wh", "gap", "ptl", "mbsa"]
    for k in range(ctx.n(1200, 9000)):
        kind = r.choice(["reg"]*5+["opt"]*3+["lib"]*2+["file"])
        ab = r.choice(names)
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11])
        if kind == "reg" and not size_ok(ab, n): n = 6
        I = gen_inst(r, n=n, coords=True, seed=k, grid=r.choice([3, 10, 40, 100]))
        j = dict(kind=kind, I=I, x=r.randrange(12), seed=r.randrange(10**6), mk=r.random() < .4, single=r.random() < .4)
        if kind == "reg": j["ab"] = ab
        if kind == "opt": j["fam"] = r.choice(fams)
        if kind == "lib": j["f"] = r.choice(["gs", "gps", "supp", "ci", "nn", "sw", "cmt", "tsp", "ls", "ls", "ls", "rfcs", "psf"])
        if (j.get("ab") in GUR+SLOW or j.get("fam") in ("gap", "ptl", "mbsa", "lr3o")) and r.random() < .5: continue
        jobs.append(j)
    P = 4 if ctx.tier == "quick" else 12
    parts = [[j for i, j in enumerate(jobs) if i % P == p] for p in range(P)]
    items = [(p, m, parts[p]) for p in range(P) for m in MODES]
    r.shuffle(items)
    table = {}
    for p, m, res in pmap(run_part, items):
        for i, v in enumerate(res): table[(p+i*P, m)] = v
    recs = []; info = []
    for i, j in enumerate(jobs):
        res = [table[(i, m[0])] for m in MODES]
        res = ["value "+v if v != "missing" else v for v in res]
        recs.append(dict(modes=[m[0] for m in MODES], res=res))
        info.append(dict({k: j[k] for k in ("kind", "ab", "fam", "f", "x", "seed", "mk", "single") if k in j}, inst=j["I"].brief()))
    ctx.log("%d calls in %d modes" % (len(jobs), len(MODES)))
    fs = []
    for k in range(ctx.n(24, 200)):
        f = mk_problem(r, "q"); 
        args = ["verypy", "-a", r.choice(FAST+["ims", "mj", "wh"])] + (["-a", r.choice(FAST)] if r.random() < .4 else []) + r.choice([[], ["-1"], ["-b", "K"], ["--post-optimize", r.choice(["2opt", "3opt"])], ["-D", r.choice(["ROUND", "EXACT", "TRUNCATE"])], ["--vrph"], ["--routes"]])
        if f["typ"] == "EXACT_2D": f["typ"] = "EUC_2D"
        if r.random() < .3: args = ["verypy.classic_heuristics."+r.choice(["parallel_savings", "sweep", "cheapest_insertion", "nearest_neighbor", "gaskell_savings", "wren_holliday_sweep", "rfcs", "tyagi_nearest_neighbor"])]+r.choice([[], ["-1"], ["-b", "K"], ["-n", "2"]])
        fs.append((f, args, k))
    for (f, args, k), res in zip(fs, pmap(run_cli, fs)):
        recs.append(dict(modes=[m[0] for m in CLIMODES], res=res)); info.append(dict(kind="cli", args=args, file=f))
    ctx.notes["command_line_runs"] = len(fs)*len(CLIMODES)
    ctx.notes["failures_equal_in_all_modes"] = sum(1 for q in recs if q["res"][0].startswith("value raised"))
    res = tlc(ctx, "ModesTrace", files={"VTRACE": recs})
    bad = sorted(set(res["bad"]))
    if not bad and res["states"] != sum(1+len(q["res"]) for q in recs): raise TLCError("not every mode was compared")
    for t, c in bad:
        q = dict(recs[t-1]); q.update(info[t-1]); ctx.violation(c, q, q.get("ab") or q.get("fam") or q.get("f") or q["kind"])
    ctx.traces += len(recs); ctx.notes["modes"] = [m[0] for m in MODES]
    for q, i in list(zip(recs, info))[:2]+list(zip(recs, info))[-1:]: ctx.sample(dict(i, result=q["res"][0][:300]))
    ctx.log("%d calls, %d rejected" % (len(recs), len(bad)))
    ctx.finish(assumptions=["the random number generators are seeded alike in every mode"])
