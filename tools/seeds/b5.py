import runpy, os
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
CH, PRE = _b3["CH"], _b3["PRE"]
IO, OPS, SO = "verypy/cvrp_io.py", "verypy/cvrp_ops.py", "verypy/local_search/solution_operators.py"
TMP = '''
import tempfile, shutil, atexit
T = tempfile.mkdtemp(); atexit.register(shutil.rmtree, T, True)
'''
SEEDS = [
("c21-geo-negative", "C21", {IO: [('''    mins, degs = modf(x)
''', '''    degs = x//1
    mins = x-degs
''')]}, PRE+TMP+'''
from math import acos, cos
from verypy import cvrp_io
pts = [(38.24, 20.42), (-39.57, 26.15), (40.56, -25.32), (-36.26, -23.12)]
f = os.path.join(T, "g.vrp")
open(f, "w").write("NAME : g\\nTYPE : CVRP\\nDIMENSION : 4\\nEDGE_WEIGHT_TYPE : GEO\\nCAPACITY : 9\\nNODE_COORD_SECTION\\n"
    +"".join("%d %s %s\\n" % (i+1, x, y) for i, (x, y) in enumerate(pts))
    +"DEMAND_SECTION\\n1 0\\n2 1\\n3 1\\n4 1\\nDEPOT_SECTION\\n1\\n-1\\nEOF\\n")
D = cvrp_io.read_TSPLIB_CVRP(f).distance_matrix
rad = lambda x: 3.141592*(int(x)+5*(x-int(x))/3)/180
def geo(p, q):
    (a, b), (c, e) = map(lambda t: (rad(t[0]), rad(t[1])), (p, q))
    return int(6378.388*acos(.5*((1+cos(b-e))*cos(a-c)-(1-cos(b-e))*cos(a+c)))+1)
bad = [(i, j, D[i][j], geo(pts[i], pts[j])) for i in range(4) for j in range(4) if i != j and abs(D[i][j]-geo(pts[i], pts[j])) > 1]
print(bad); sys.exit(1 if bad else 0)
''', "GEO coordinates south of the equator or west of Greenwich that are not whole degrees", "negative degrees are rounded down before the minutes are added, so the distances are wrong"),
("c22-zero-service-first", "C22", {IO: [('''                    if ST is not None and nst!=ST:
''', '''                    if ST and nst!=ST:
''')]}, PRE+TMP+'''
from verypy import cvrp_io
f = os.path.join(T, "g.vrp"); bad = 0
for ts in ([0, 5, 5], [5, 0, 5], [5, 5, 0], [0, 0, 5]):
    open(f, "w").write("NAME : g\\nTYPE : CVRP\\nDIMENSION : 4\\nEDGE_WEIGHT_TYPE : EUC_2D\\nCAPACITY : 9\\nSVC_TIME_SECTION\\n"
        +"".join("%d %d\\n" % (i+2, t) for i, t in enumerate(ts))+"NODE_COORD_SECTION\\n1 0 0\\n2 1 1\\n3 2 2\\n4 3 3\\nEOF\\n")
    try: print(ts, cvrp_io.read_TSBLIB_additional_constraints(f)); bad += 1
    except IOError: pass
sys.exit(1 if bad else 0)
''', "a service time section whose first customers have no service time and the later ones have", "differing service times are not refused but taken as one"),
("c18-midroute-load", "C18", {OPS: [('''    c += tail_c
''', '''    c = max(c, tail_c)
''')]}, PRE+'''
from verypy.cvrp_ops import validate_solution_feasibility as V
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 5); C = max(d)+r.randint(2, 8)
    p = [1, 2, 0, 3, 0, 4, 5]; k = r.randint(0, 6); p = p[k:]+p[:k]
    w = all(sum(d[x] for x in q) <= C for q in ([3], [4, 5, 1, 2]))
    bad += V(p, D, d, C, None)[1] != w
print(bad); sys.exit(1 if bad else 0)
''', "a tour written from the middle of a route whose two pieces fit a vehicle each but not together", "the load of the route that wraps around is that of its heavier piece"),
("c10-both-loops", "C10", {SO: [('''MOVES_3OPTSTAR_WHEN_BOTH_LOOPS = MOVES_3OPTSTAR
''', '''MOVES_3OPTSTAR_WHEN_BOTH_LOOPS = MOVES_3OPTSTAR[:15]
''')]}, PRE+'''
import itertools
from verypy.local_search import LSOPT
from verypy.local_search.solution_operators import do_3optstar_move
bad = 0
# every way to reconnect the pieces of a plan after removing three edges, by brute force
def best3(sol, D, d, C):
    best = 0
    n = len(sol)
    for i, j, k in itertools.combinations(range(n-1), 3):
        p0, p1, p2, p3 = sol[:i+1], sol[i+1:j+1], sol[j+1:k+1], sol[k+1:]
        if not (0 in p1 and 0 in p2): continue
        # both middle pieces closed on themselves, the outer pieces joined
        ch = D[p0[-1], p3[0]]+D[p1[-1], p1[0]]+D[p2[-1], p2[0]]-D[p0[-1], p1[0]]-D[p1[-1], p2[0]]-D[p2[-1], p3[0]]
        a, b = p1.index(0), p2.index(0)
        new = p0+p3[:-1]+p1[a:]+p1[:a]+p2[b:]+p2[:b]+[0]
        if all(sum(d[x] for x in q) <= C for q in routes(new)): best = min(best, ch)
    return best
for s in range(1500):
    r = random.Random(s); P, D, d = inst(r, r.randint(4, 6)); n = len(d)-1; C = max(d)+r.randint(4, 14)
    w = [[r.choice([1, 2, 3, 5, 9, 14]) for _ in D] for _ in D]
    D = np.array([[0 if i == j else w[min(i, j)][max(i, j)] for j in range(n+1)] for i in range(n+1)])
    p = r.sample(range(1, n+1), n); sol = [0]; load = 0
    for x in p:
        if load and (load+d[x] > C or r.random() < .4): sol.append(0); load = 0
        sol.append(x); load += d[x]
    sol.append(0)
    ns, dl = do_3optstar_move(sol, D, d, C, None, LSOPT.BEST_ACCEPT)
    b = best3(sol, D, d, C)
    if b < (0 if ns is None else dl)-1e-6: bad += 1; print(sol, b, dl)
print("missed", bad); sys.exit(1 if bad else 0)
''', "a plan whose only improving exchange closes two routes and joins a third at once", "the last of the sixteen reconnections is never tried"),
("c35-regret-all-routes", "C35", {CH+"cmt_2phase.py": [('''            brdcast_rs_idxs = [[rsi] for rsi in route_seed_idxs]
''', '''            brdcast_rs_idxs = [[rsi] for rsi in range(K) if rsi!=route_seed_idx]
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = []
# instances on which the described machine ends at these costs
for s, c in ((12, 391), (13, 349), (34, 346), (65, 383), (105, 387), (134, 410)):
    r = random.Random(s); P, D, d = inst(r, r.randint(8, 11), 2); C = r.randint(12, 20)
    sol = cmt_2phase_init(D, d, C, None, s%2 == 1, 1.0, 1.0)
    g = sum(cost(q, D) for q in routes(sol))
    if g != c: bad.append((s, g, c))
print(bad); sys.exit(1 if bad else 0)
''', "three routes or more and a customer of a later route whose second best is a route already done", "the urgency of a customer is measured against routes that had their turn"),
("c35-shared-refusals", "C35", {CH+"cmt_2phase.py": [('''    insertion_infeasible = [[False]*N for rs in route_seeds ] 
''', '''    insertion_infeasible = [[False]*N]*K
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = []
# instances on which the described machine ends at these costs
for s, c in ((42, 594), (63, 363), (65, 410), (98, 387), (112, 481), (120, 430), (154, 462)):
    r = random.Random(s); P, D, d = inst(r, r.randint(8, 11), 2); C = r.randint(12, 20)
    sol = cmt_2phase_init(D, d, C, int(2*max(D[0])+s%7*8), s%2 == 1, 1.0, 1.0)
    g = sum(cost(q, D) for q in routes(sol))
    if g != c: bad.append((s, g, c))
print(bad); sys.exit(1 if bad else 0)
''', "a route cost limit and a customer that does not fit one route by its cost but fits a later one", "a customer refused by one route for its cost is refused by all the routes after it"),
("c06-m4-around-last", "C06", {CH+"paessens_savings.py": [('''            best_params = (g,f)
        
''', '''        best_params = (g,f)
        
''')]}, PRE+'''
from verypy.classic_heuristics.paessens_savings import paessens_savings_init as P4
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 14); C = 20
    one = lambda ps: min((cost_of(P4(D, d, C, None, False, strategy=[p], do_3opt=False)), i) for i, p in enumerate(ps))
    cost_of = lambda sol: sum(cost(q, D) for q in routes(sol))
    four = [(1.0, 0.1), (1.0, 0.5), (1.4, 0.0), (1.4, 0.5)]
    c4, i = one(four); g, f = four[i]
    c8, _ = one([(g-.1, f), (g+.1, f), (g, f-.1), (g, f+.1)])
    got = cost_of(P4(D, d, C, None, False, strategy="M4", do_3opt=False))
    bad += got > min(c4, c8)
print("dearer than a setting it has to try", bad); sys.exit(1 if bad else 0)
''', "the M4 strategy, the best of the four settings not the last, and a setting around it that is better", "the fine tuning goes around the last of the four settings instead of the best one"),
("c33-one-more", "C33", {CH+"gapvrp.py": [('''        maxK = N-1
    
''', '''        maxK = min(N-1, startK+1)
    
''')]}, PRE+'''
from verypy.classic_heuristics.gapvrp import gap_init
bad = 0
for s in range(12):
    r = random.Random(s); n = 6+s%2; P, D, d = inst(r, n); d = [0]+[6]*n
    sol = gap_init(P, D, d, 10, None, None, False, True)
    bad += sol is None or len(routes(sol)) != n
print("gave up", bad); sys.exit(1 if bad else 0)
''', "demands that pack so badly that two vehicles more are needed than the total demand suggests", "the assignment heuristic gives up although the demands can be packed"),
("c02-gm-stale-demand", "C02", {CH+"gillet_miller_sweep.py": [('''        return RouteData(D2_route, D2, D2_demand, D2_route_nodes),\\
''', '''        return RouteData(D2_route, D2, D1_demand, D2_route_nodes),\\
''')]}, PRE+'''
from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 12); C = r.randint(14, 25); L = int(max(D[0])*2+r.randint(40, 120))
    sol = gillet_miller_init(P, D, d, C, L)
    bad += any(sum(d[x] for x in q) > C for q in routes(sol))
print("overloaded", bad); sys.exit(1 if bad else 0)
''', "both limits given, a customer replaced by a heavier one from further on in the sweep, and more customers that follow", "the load of the route is not updated by the replacement, so the route is filled beyond the capacity"),
("c28-petal-normalize", "C28", {CH+"petalvrp.py": [('''                rd.normalize()
                tuple_r = tuple(rd.route) # convert to tuple for hashing
                if __debug__:
''', '''                tuple_r = tuple(rd.route) # convert to tuple for hashing
                if __debug__:
                    rd.normalize()
                    tuple_r = tuple(rd.route)
''')]}, PRE+'''
import subprocess
prog = """
import sys, random, numpy as np
sys.path.insert(0, %r)
from verypy.classic_heuristics.petalvrp import petal_init
for s in range(40):
    r = random.Random(s); n = 6
    P = [(r.randint(0, 40), r.randint(0, 40)) for _ in range(n+1)]
    D = np.array([[int(round(((a-c)**2+(b-e)**2)**.5)) for c, e in P] for a, b in P])
    d = [0]+[r.randint(1, 5) for _ in range(n)]
    print(petal_init(P, D, d, 11, None))
""" % os.getcwd()
o = [subprocess.run([sys.executable, "-W", "ignore"]+f+["-c", prog], capture_output=True, text=True).stdout for f in ([], ["-O"])]
print(o[0].count("\\n"), o[0] == o[1]); sys.exit(0 if o[0] == o[1] else 1)
''', "python -O", "the petals are only normalised in the debug mode"),
("c04-nn-cache", "C04", {"verypy/util.py": [('''def produce_nn_list(D):
''', '''_NN_LISTS = {}
def produce_nn_list(D):
'''), ('''    n = len(D)
    # preprocess D to sorted_per_line_D
''', '''    n = len(D)
    if (id(D), n) in _NN_LISTS:
        return _NN_LISTS[(id(D), n)]
    # preprocess D to sorted_per_line_D
'''), ('''        NN_D[i] = sorted(enumerate(D[i,:]), key=itemgetter(1))
    return NN_D
''', '''        NN_D[i] = sorted(enumerate(D[i,:]), key=itemgetter(1))
    return _NN_LISTS.setdefault((id(D), n), NN_D)
''')]}, PRE+'''
import subprocess
from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init
bad = 0
def solve(s, fresh):
    r = random.Random(s); P, D, d = inst(r, 12); C = r.randint(14, 25); L = int(max(D[0])*2+r.randint(40, 120))
    return gillet_miller_init(P, D, d, C, L)
S = list(range(60))
prog = "import sys; sys.argv=['x','one']; exec(open(%r).read())"
if len(sys.argv) > 1:
    print([solve(s, 0) for s in S]); sys.exit(0)
a = [solve(s, 0) for s in S]
keep = []
_inst = inst
def inst(r, n):
    t = _inst(r, n); keep.append(t); return t
b = [solve(s, 0) for s in S]
print(sum(x != y for x, y in zip(a, b))); sys.exit(1 if a != b else 0)
''', "several instances of the same size in one process, each let go before the next is made", "the neighbour lists of an earlier instance are used for a new one that got its place in memory"),
]
