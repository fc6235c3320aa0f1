#!/usr/bin/env python3
"""Mutation testing of the checks: sample single-site source mutants of /repo, keep those the stable
tests miss, run the mapped checks and list the survivors.
  mutate.py OUTDIR N SEED WORKERS [file-substring...]
Runs every mutant in a private mount namespace on scratch copies of /repo and /verif; neither is touched."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import warnings; warnings.simplefilter("ignore")
R = "/repo/verypy"
H = "classic_heuristics/"
MAP = {
 "util.py": "C26 C19 C06", "cvrp_ops.py": "C18 C19 C20", "cvrp_io.py": "C21 C22 C27", "routedata.py": "C25 C08",
 "VeRyPy.py": "C23", "shared_cli.py": "C23", "local_search/__init__.py": "C11 C09",
 "local_search/intra_route_operators.py": "C07 C24 C11", "local_search/inter_route_operators.py": "C08 C09 C11",
 "local_search/solution_operators.py": "C10 C11", "tsp_solvers/tsp_solver_ropt.py": "C24 C01",
 "tsp_solvers/tsp_solver_gurobi.py": "C24 C01",
 H+"cheapest_insertion.py": "C14 C06 C29 C01 C02 C03", H+"nearest_neighbor.py": "C15 C06 C29 C01 C02 C03",
 H+"sweep.py": "C16 C06 C29 C01 C02 C03", H+"rfcs.py": "C17 C34 C06 C29 C01 C02 C03", H+"parallel_savings.py": "C12 C29 C01 C02 C03 C05",
 H+"sequential_savings.py": "C13 C06 C29 C01 C02 C03", H+"gaskell_savings.py": "C12 C06 C29 C01 C02 C03",
 H+"paessens_savings.py": "C12 C34 C06 C29 C01 C02 C03", H+"suppression_savings.py": "C12 C06 C29 C01 C02 C03 C05",
 H+"cawlip_savings.py": "C12 C34 C29 C01 C02 C03", H+"matchingvrp.py": "C31 C34 C05 C29 C01 C02", H+"petalvrp.py": "C32 C01 C02 C03 C29",
 H+"gapvrp.py": "C33 C34 C29 C01 C02 C06", H+"mole_jameson_insertion.py": "C34 C06 C29 C01 C02 C03 C05", H+"lr3opt.py": "C34 C29 C01 C02 C05",
 H+"cmt_2phase.py": "C34 C29 C01 C02 C03 C06 C05", H+"tyagi_nearest_neighbor.py": "C34 C29 C01 C02 C03", H+"gillet_miller_sweep.py": "C34 C29 C01 C02 C03 C06",
 H+"wren_holliday_sweep.py": "C29 C01 C02 C03 C05"}
DEF = "C29 C01 C02 C03 C06 C05"
SKIP = ("naive_implementations", "inter_route_3opt", "visualizers", "Gui", "acotsp", "lkh", "__main__", "config.py", "tsp_solver_fast")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

def mutants(path):
    src = open(path).read(); lines = src.split("\n"); tree = ast.parse(src); out = []
    def seg(n): return ast.get_source_segment(src, n)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    def pos(l, c): return off[l-1] + c
    def span(n): return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    def add(s, e, new, n, kind): out.append((s, e, new, n.lineno, kind))
    def between(a, c, old, new, n, kind):
        s, e = span(a)[1], span(c)[0]; t = b[s:e].decode(); i = t.find(old)
        if i >= 0: add(s+i, s+i+len(old), new, n, kind)
    def islog(st):
        return isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and any(
            k in (seg(st.value.func) or "") for k in ("log", "print", "warn", "produce_final", "_visualize"))
    def visit(n, names):
        if isinstance(n, ast.If) and ("__debug__" in (seg(n.test) or "") or "__name__" in (seg(n.test) or "")): 
            for x in n.orelse: visit(x, names)
            return
        if islog(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)): return
        if isinstance(n, ast.FunctionDef) and (n.name.startswith(("_print", "_write", "main", "read_and_solve", "tsp_cli"))): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)})
            if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign)):
                s, e = span(n); add(s, e, "pass", n, "delete")
            if isinstance(n, ast.Break): s, e = span(n); add(s, e, "pass", n, "nobreak")
            if isinstance(n, ast.Continue): s, e = span(n); add(s, e, "pass", n, "nocontinue")
        if isinstance(n, (ast.If, ast.While)): 
            names = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)})
            if isinstance(n, ast.If):
                s, e = span(n.test); add(s, e, "False", n, "iffalse"); add(s, e, "True", n, "iftrue")
        if isinstance(n, ast.Compare):
            l = n.left
            for o, c in zip(n.ops, n.comparators):
                between(l, c, SYM[type(o)], CMP[type(o)], n, "cmp")
                if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    inv = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[SYM[type(o)]]
                    between(l, c, SYM[type(o)], inv, n, "cmpinv")
                l = c
        if isinstance(n, ast.BoolOp):
            a, o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], a, o, n, "bool")
            for v in n.values:   # drop a conjunct
                s, e = span(v); add(s, e, "True" if a == "and" else "False", n, "dropcond")
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*")}.get(type(n.op))
            if m:
                between(n.left, n.right, m[0], m[1], n, "arith")
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(span(n.left)[1], span(n.right)[1], "", n, "dropterm")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = span(n); s2, e2 = span(n.operand); add(s, e, b[s2:e2].decode(), n, "not")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
            s, e = span(n)
            if n.value is True: add(s, e, "False", n, "const")
            elif n.value is False: add(s, e, "True", n, "const")
            elif isinstance(n.value, int): add(s, e, str(n.value+1), n, "const"); n.value > 0 and add(s, e, str(n.value-1), n, "const")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for o in names:
                if o != n.id and len(o) <= 8 and o not in dir(__builtins__) and o not in ("log","DEBUG","np","len","sum","range"):
                    s, e = span(n); add(s, e, o, n, "name")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            s, e = span(n.func); add(s, e, "max" if n.func.id == "min" else "min", n, "minmax")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "set", "abs") and len(n.args) == 1:
            s, e = span(n); s2, e2 = span(n.args[0]); add(s, e, b[s2:e2].decode(), n, "unwrap")
        for x in ast.iter_child_nodes(n): visit(x, names)
    visit(tree, [])
    res = []
    for s, e, new, ln, k in out:
        m = b[:s] + new.encode() + b[e:]
        try: compile(m, path, "exec")
        except SyntaxError: continue
        res.append({"file": os.path.relpath(path, R), "line": ln, "kind": k, "s": s, "e": e, "old": b[s:e].decode(), "new": new,
                    "text": lines[ln-1].strip()[:160]})
    return res

GO = r'''
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/reports /opt/vp/reports
cd /repo; timeout 120 bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1
python3 - <<'P' > $W/res
import json
b=json.load(open('/opt/vp/BASELINE.json'))
try:
    o=json.load(open('$W/o.json')); m=[x for x in b['stable'] if x not in o['passed']]
except Exception: m=['none']
print('TESTS', len(m))
P
grep -q 'TESTS 0' $W/res || exit 0
for c in $CHECKS; do
  timeout 600 env VERIF_SEED=1 VERIF_TIER=quick /verif/run.sh $c > $W/out 2>&1; rc=$?
  echo "CHECK $c $rc $(grep -m1 clause $W/out | cut -c1-120)" >> $W/res
  [ $rc = 1 ] && exit 0
done
'''
def one(m, base):
    W = tempfile.mkdtemp(prefix="vp_mut_", dir="/tmp")
    try:
        shutil.copytree("/repo", W+"/repo", symlinks=True); shutil.copytree(base, W+"/verif", symlinks=True); os.mkdir(W+"/reports")
        p = W+"/repo/verypy/"+m["file"]; b = open(p, "rb").read()
        open(p, "wb").write(b[:m["s"]]+m["new"].encode()+b[m["e"]:])
        open(W+"/go.sh", "w").write("W=%s\nCHECKS=\"%s\"\n" % (W, MAP.get(m["file"], DEF)) + GO.replace("$W/o.json", W+"/o.json"))
        t = time.time(); pr = subprocess.Popen(["timeout", "-k", "5", "1500", "unshare", "-Urmpf", "--kill-child", "bash", W+"/go.sh"],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); pr.wait()
        res = open(W+"/res").read().splitlines() if os.path.exists(W+"/res") else []
        m = dict(m, res=res, t=round(time.time()-t))
        m["verdict"] = ("tests" if res and res[0] != "TESTS 0" else
                        "killed" if any(l.split()[2] == "1" for l in res[1:]) else
                        "error" if any(l.split()[2] != "0" for l in res[1:]) or not res else "SURVIVED")
        return m
    finally: shutil.rmtree(W, ignore_errors=True)

if __name__ == "__main__":
    out, N, seed, wk = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); pats = sys.argv[5:]
    os.makedirs(out, exist_ok=True)
    files = [os.path.join(d, f) for d, _, fs in os.walk(R) for f in fs if f.endswith(".py")]
    files = sorted(f for f in files if not any(s in f for s in SKIP) and os.path.getsize(f) and (not pats or any(p in f for p in pats)))
    r = random.Random(seed); todo = []
    for f in files:
        ms = mutants(f); r.shuffle(ms); ms.sort(key=lambda m: r.random()*(4 if m['kind']=='name' else 1)); seen = set(); k = 0
        for m in ms:
            if k >= N: break
            if (m["line"], m["kind"]) in seen: continue
            seen.add((m["line"], m["kind"])); todo.append(m); k += 1
    r.shuffle(todo)
    base = out+"/verif"; shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/verif", base, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
    os.makedirs(base+"/evidence"); os.makedirs(base+"/replays")
    with ThreadPoolExecutor(wk) as ex, open(out+"/results.jsonl", "a") as fo:
        for m in ex.map(lambda m: one(m, base), todo):
            fo.write(json.dumps(m)+"\n"); fo.flush()
            print(m["verdict"], m["file"], m["line"], m["kind"], repr(m["old"][:40]), "->", repr(m["new"][:40]), "|", m["text"][:70], "|", m["res"][-1:], flush=True)
