LS = "verypy/local_search/__init__.py"; IR = "verypy/local_search/inter_route_operators.py"
IA = "verypy/local_search/intra_route_operators.py"; CH = "verypy/classic_heuristics/"; TS = "verypy/tsp_solvers/"
PRE = '''
import sys, os, random, numpy as np
def inst(r, n, lo=1, hi=60, metric=True):
    P = [(r.randint(0, hi), r.randint(0, hi)) for _ in range(n+1)]
    D = np.array([[int(round(((a-c)**2+(b-d)**2)**.5)) for c, d in P] for a, b in P])
    if metric:
        for k in range(n+1): D = np.minimum(D, D[:, k:k+1]+D[k:k+1, :])
    return P, D, [0]+[r.randint(lo, 9) for _ in range(n)]
def routes(sol):
    out = [[]]
    for x in sol:
        if x == 0: out.append([])
        else: out[-1].append(x)
    return [q for q in out if q]
def cost(q, D):
    t = [0]+list(q)+[0]
    return sum(D[a, b] for a, b in zip(t, t[1:]))
'''
STUB = PRE+'''
import tempfile, shutil, stat
H = tempfile.mkdtemp(); os.environ["HOME"] = H
from verypy import config
p = config.LKH_EXE_PATH; assert p.startswith(H)
os.makedirs(os.path.dirname(p))
open(p, "w").write("#!"+sys.executable+"""
import sys
q = dict((a.strip(), b.strip()) for a, _, b in (l.partition("=") for l in open(sys.argv[1])))
n = [int(l.split(":")[1]) for l in open(q["PROBLEM_FILE"]) if l.startswith("DIMENSION")][0]
t = list(range(1, n+1)); t = t[2:]+t[:2]
open(q["OUTPUT_TOUR_FILE"], "w").write("COMMENT : Length = 1\\\\nTOUR_SECTION\\\\n"+"\\\\n".join(map(str, t))+"\\\\n-1\\\\nEOF\\\\n")
"""); os.chmod(p, 0o755)
'''
SEEDS = [
("c02-cmt-revisited-load", "C02", {CH+"cmt_2phase.py": [('''                                                  route_demand,    #updated demand
''', '''                                                  routes[route_seed_idx].demand if route_l_updated else route_demand,
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = 0
for s in range(400):
    r = random.Random(s); P, D, d = inst(r, r.choice([7, 9, 12]))
    C = r.randint(9, 20); L = int(2*max(D[0])+r.randint(0, 60))
    for q in routes(cmt_2phase_init(D, d, C, L)):
        bad += sum(d[x] for x in q) > C
print("overloaded", bad); sys.exit(1 if bad else 0)
''', "capacity and route-cost limits, a route whose last insertion needed a tour improvement and that gets further customers in a later round", "the load of such a route is forgotten between rounds, so later customers overload it"),
("c02-complain-load", "C02", {CH+"wren_holliday_sweep.py": [('''                        best_rl+best_replace_delta,
                        best_rd-d[to_remove]+d[node])
''', '''                        best_rl+best_replace_delta,
                        best_rd)
''')]}, PRE+'''
from verypy.classic_heuristics.wren_holliday_sweep import wren_holliday_init
bad = 0
for s in range(1500):
    r = random.Random(s); P, D, d = inst(r, r.choice([6, 8, 10]), lo=0, hi=r.choice([6, 30]))
    C = max(max(d), r.randint(9, 16))
    try: sol = wren_holliday_init(P, D, d, C, None, minimize_K=r.random() < .5)
    except Exception as e: continue
    bad += any(sum(d[x] for x in q) > C for q in routes(sol))
print("overloaded", bad); sys.exit(1 if bad else 0)
''', "a customer that fits no route and takes the place of a smaller one, in a route changed again afterwards", "the load of the route is not updated by the exchange"),
("c01-multiserved-index", "C01", {CH+"petalvrp.py": [('''                        if riu==rri and niu>rni:
''', '''                        if riu==kri and niu>rni:
''')]}, PRE+'''
from verypy.classic_heuristics.petalvrp import petal_init, _remove_multiserved
bad = 0
for s in range(1500):
    r = random.Random(s); n = r.choice([4, 5, 6]); P, D, d = inst(r, n)
    rs = []
    cs = list(range(1, n+1)); r.shuffle(cs); k = r.randint(1, n-1)
    a, b = cs[:k], cs[k:]
    a = a+[x for x in b if r.random() < .5]; b = b+[x for x in cs[:k] if r.random() < .5]
    r.shuffle(a); r.shuffle(b)
    R = [[0]+a+[0], [0]+b+[0]]
    _remove_multiserved(R, D)
    bad += sorted(x for q in R for x in q if x) != list(range(1, n+1))
for s in range(60):
    r = random.Random(s); n = r.choice([6, 8, 9]); P, D, d = inst(r, n); C = r.randint(9, 20)
    sol = petal_init(P, D, d, C, None)
    bad += sorted(x for x in sol if x) != list(range(1, n+1))
print("lost or doubled", bad); sys.exit(1 if bad else 0)
''', "two customers served by the same two routes of the covering, the first kept in the one and removed from the other", "positions after a removal are shifted in the wrong route, so the wrong customer is removed later"),
("c28-assert-effect", "C28", {CH+"sequential_savings.py": [('''                    emerging_route_nodes.append(j)
                unrouted.remove(j)
''', '''                    emerging_route_nodes.append(j)
                assert unrouted.remove(j) is None
''')]}, PRE+'''
import subprocess
code = """
import numpy as np
from verypy.classic_heuristics.sequential_savings import sequential_savings_init
D = np.array([[0, 5, 6, 5], [5, 0, 2, 3], [6, 2, 0, 2], [5, 3, 2, 0]])
print(sequential_savings_init(D, [0, 1, 1, 1], 9, None))
"""
o = [subprocess.run([sys.executable]+f+["-c", code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout for f in ([], ["-O"])]
print(o); sys.exit(1 if o[0] != o[1] else 0)
''', "python -O", "a customer merged into a route is only taken off the list of unrouted ones by an assertion"),
("c28-verbose-order", "C28", {CH+"parallel_savings.py": [('''from logging import log, DEBUG
''', '''from logging import log, DEBUG, getLogger
'''), ('''            if __debug__:
                log(DEBUG-1, "Popped savings s_{%d,%d}=%.2f" % (i,j,best_saving))
''', '''            if __debug__ and getLogger().isEnabledFor(DEBUG-3):
                savings.sort(key=lambda s: (-s[0], s[2], s[3]))
            if __debug__:
                log(DEBUG-1, "Popped savings s_{%d,%d}=%.2f" % (i,j,best_saving))
''')]}, PRE+'''
import logging
from verypy.classic_heuristics.parallel_savings import parallel_savings_init
bad = 0
for s in range(200):
    r = random.Random(s); P, D, d = inst(r, 8, hi=4); C = r.randint(9, 20)
    logging.disable(logging.NOTSET); logging.getLogger().handlers = [logging.NullHandler()]
    logging.getLogger().setLevel(logging.WARNING); a = parallel_savings_init(D, d, C, None)
    logging.getLogger().setLevel(1); b = parallel_savings_init(D, d, C, None)
    bad += a != b
print("different", bad); sys.exit(1 if bad else 0)
''', "the most verbose log level and equal savings", "the savings are sorted for the log, which changes the order of equal ones"),
("c29-cmt-nth-route", "C29", {CH+"cmt_2phase.py": [('''                if len(route_seed_idxs)<associate_to_nth_best_route:
''', '''                if not route_seed_idxs:
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, r.choice([7, 9, 12])); C = r.randint(9, 16)
    try: sol = cmt_2phase_init(D, d, C, None, phase2_repeated_association_with_n_routes=r.choice([2, 3, "K"]))
    except Exception as e: bad += 1; print(repr(e)); continue
    bad += sorted(x for x in sol if x) != list(range(1, len(d)))
print("bad", bad); sys.exit(1 if bad else 0)
''', "association with the n-th best route and fewer than n routes left in a round", "the n-th best of fewer than n routes is looked for"),
("c30-lkh-node-order", "C30", {TS+"tsp_solver_lkh.py": [('''                vrp_nid = selected_idxs[int(l)-1]
''', '''                vrp_nid = sorted(selected_idxs)[int(l)-1]
''')]}, STUB+'''
from verypy.tsp_solvers.tsp_solver_lkh import solve_tsp_lkh
D = np.array([[0, 3, 9, 4, 7], [3, 0, 5, 8, 6], [9, 5, 0, 2, 1], [4, 8, 2, 0, 9], [7, 6, 1, 9, 0]])
sol, f = solve_tsp_lkh(D, [0, 4, 1, 3, 2])
shutil.rmtree(H)
print(sol, f)
sys.exit(0 if list(sol) == [0, 4, 1, 3, 2, 0] else 1)
''', "LKH asked about nodes that are not in increasing order", "the program's tour is translated with the sorted nodes, not in the order they were given to it"),
("c30-gurobi-four", "C30", {TS+"tsp_solver_gurobi.py": [('''    if n<=3:
''', '''    if n<=4:
''')]}, PRE+'''
from verypy.tsp_solvers.tsp_solver_gurobi import solve_tsp_gurobi
D = np.array([[0, 1, 9, 2], [1, 0, 2, 9], [9, 2, 0, 1], [2, 9, 1, 0]])
sol, f = solve_tsp_gurobi(D, [0, 2, 1, 3])
print(sol, f); sys.exit(0 if abs(f-6) < 1e-6 else 1)
''', "exactly four nodes, given in an order that is not a shortest tour", "the nodes are returned in the order given instead of a shortest tour"),
]
