LS = "verypy/local_search/__init__.py"; IR = "verypy/local_search/inter_route_operators.py"
IA = "verypy/local_search/intra_route_operators.py"; CH = "verypy/classic_heuristics/"
PRE = '''
import sys, random, numpy as np
from itertools import permutations, combinations
def inst(r, n, lo=1, hi=60):
    P = [(r.randint(0, hi), r.randint(0, hi)) for _ in range(n+1)]
    D = np.array([[int(round(((a-c)**2+(b-d)**2)**.5)) for c, d in P] for a, b in P])
    for k in range(n+1): D = np.minimum(D, D[:, k:k+1]+D[k:k+1, :])
    return P, D, [0]+[r.randint(lo, 9) for _ in range(n)]
def routes(sol):
    out = [[]]
    for x in sol:
        if x == 0: out.append([])
        else: out[-1].append(x)
    return [q for q in out if q]
def cost(q, D):
    t = [0]+list(q)+[0]
    return sum(D[a, b] for a, b in zip(t, t[1:]))
'''
SEEDS = [
("c12-both-limits-load", "C12", {CH+"parallel_savings.py": [('''            if C: route_demands[left_route] = merged_demand
            if L: route_costs[left_route] = merged_cost
''', '''            if L: route_costs[left_route] = merged_cost
            elif C: route_demands[left_route] = merged_demand
''')]}, PRE+'''
from verypy.classic_heuristics.parallel_savings import parallel_savings_init
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 8)
    C = r.randint(9, 18); L = int(2*max(D[0])+r.randint(30, 90))
    for q in routes(parallel_savings_init(D, d, C, L)):
        if sum(d[x] for x in q) > C or cost(q, D) > L: bad += 1
print("overloaded", bad); sys.exit(1 if bad else 0)
''', "both limits set, and a route merged more than once", "the load of a merged route is not recorded when a route-cost limit is also set, so later merges overload it"),
("c12-equal-savings-order", "C12", {CH+"parallel_savings.py": [('''savings[idx] = (s,-D[i,j],i,j)''', '''savings[idx] = (s,D[i,j],i,j)''')]}, PRE+'''
from verypy.classic_heuristics.parallel_savings import parallel_savings_init
# two pairs with the same saving: (1,2) is the shorter link, and both do not fit
D = np.array([[0, 4, 4, 8], [4, 0, 2, 6], [4, 2, 0, 8], [8, 6, 8, 0]])
sol = parallel_savings_init(D, [0, 1, 1, 1], 2, None)
print(sol); sys.exit(0 if any(sorted(q) == [1, 2] for q in routes(sol)) else 1)
''', "two pairs of customers with equal savings but different link lengths", "among equal savings the longer link is used first"),
("c13-right-end-only", "C13", {CH+"sequential_savings.py": [('''                do_left_merge = emerging_route_nodes[0] == i
''', '''                do_left_merge = emerging_route_nodes[0] == i and not minimize_K
'''), ('''                do_right_merge = emerging_route_nodes[-1] == i and\\
                                 len(emerging_route_nodes)>1
''', '''                do_right_merge = emerging_route_nodes[-1] == i and\\
                                 (minimize_K or len(emerging_route_nodes)>1)
''')]}, PRE+'''
from verypy.classic_heuristics.sequential_savings import sequential_savings_init
P = [(0, 0), (0, 10), (1, 10), (-3, 10)]
D = np.array([[((a-c)**2+(b-d)**2)**.5 for c, d in P] for a, b in P])
sol = sequential_savings_init(D, [0, 1, 1, 1], 3, None, minimize_K=True)
print(sol); sys.exit(0 if abs(cost(routes(sol)[0], D)-min(cost(p, D) for p in permutations([1, 2, 3]))) < 1e-6 else 1)
''', "the number of routes is minimised and the best extension is over the first end of the emerging route", "with minimize_K the emerging route is only extended at one of its ends"),
("c05-served-twice", "C05", {CH+"sequential_savings.py": [('''                unrouted.remove(j)
                
                # update the savings list
                savings += savings_callback(unrouted, j, D)
''', '''                # update the savings list
                savings += savings_callback(unrouted-set([j]), j, D)
                unrouted.remove(j)
''')]}, PRE+'''
from verypy.classic_heuristics.sequential_savings import sequential_savings_init
class M(np.ndarray):
    left = 10**9
    def __getitem__(self, k):
        M.left -= 1
        if M.left == 0: raise KeyboardInterrupt()
        return np.ndarray.__getitem__(self, k)
bad = 0
for s in range(3):
    r = random.Random(s); P, D, d = inst(r, 6)
    for at in range(1, 200):
        M.left = at
        try: sequential_savings_init(D.view(M), d, 15, None)
        except KeyboardInterrupt as e:
            if e.args and e.args[0]:
                if sorted(x for x in e.args[0] if x) != list(range(1, 7)): bad += 1
print("broken salvaged plans", bad); sys.exit(1 if bad else 0)
''', "an interrupt that arrives while the savings of a customer just joined to the route are computed", "the salvaged plan serves that customer twice"),
("c06-improved-or", "C06", {"verypy/util.py": [('''        return (sol_K<best_K) or (sol_K==best_K and sol_f<best_f)''',
 '''        return (sol_K<best_K) or (sol_f<best_f)''')]}, PRE+'''
from verypy.util import is_better_sol
from verypy.classic_heuristics.sweep import sweep_init
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 7)
    pts = [(float(x)+.01*i, float(y)) for i, (x, y) in enumerate(P)]
    best = sweep_init(pts, D, d, 15, None, True)
    for dr in ("cw", "ccw"):
        for st in range(1, 8):
            one = sweep_init(pts, D, d, 15, None, True, direction=dr, seed_node=st)
            if one.count(0) < best.count(0): bad += 1
print("single runs with fewer routes", bad); sys.exit(1 if bad else 0)
''', "minimize_K, and a later attempt that is cheaper but uses more routes than the best so far", "a cheaper plan with more routes replaces the best plan although the number of routes is the objective"),
("c07-relocate-neighbours", "C07", {IA: [('''            if i==j or j==i-1:
                continue
            
            a = route[i-1]
''', '''            if i==j or j==i-1 or j==i+2:
                continue
            
            a = route[i-1]
''')]}, PRE+'''
from verypy.local_search import LSOPT
from verypy.local_search.intra_route_operators import do_relocate_move
bad = 0
f = lambda t: sum(D[x, y] for x, y in zip(t, t[1:]))
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 5)
    ro = [0]+r.sample(range(1, 6), 5)+[0]
    best = 0
    for i in range(1, 6):
        q = ro[:i]+ro[i+1:]
        for j in range(1, 6): best = min(best, f(q[:j]+[ro[i]]+q[j:])-f(ro))
    res, dl = do_relocate_move(ro, D, LSOPT.BEST_ACCEPT)
    if (dl or 0) != best: bad += 1
print("missed", bad); sys.exit(1 if bad else 0)
''', "a route whose best relocation moves a customer past its direct neighbour", "relocations over one position are not tried in either direction"),
("c09-insert-load", "C09", {IR: [('''            if C: ansatz_d+=d[node]
            ansatz_l+=best_insert_delta
''', '''            if C and ni==len(unrouted)-1: ansatz_d+=d[node]
            ansatz_l+=best_insert_delta
''')]}, PRE+'''
from verypy.local_search import LSOPT
from verypy.routedata import RouteData
from verypy.local_search.inter_route_operators import do_insert_move
bad = 0
for s in range(50):
    r = random.Random(s); P, D, d = inst(r, 6)
    rd, = RouteData.from_routes([[0, 1, 2, 3, 0]], D, d)
    _, new, dl = do_insert_move([4, 5], rd, D, d, 60, None, LSOPT.BEST_ACCEPT)
    if new is None or cost(new.route[1:-1], D) != new.cost or sum(d[x] for x in new.route) != new.demand: bad += 1
print("wrong records", bad); sys.exit(1 if bad else 0)
''', "several customers inserted in one call, with a capacity", "the recorded load of the receiving route only counts the last inserted customer"),
("c10-exactly-at-limit", "C10", {"verypy/local_search/solution_operators.py": [('''                if route_l-S_EPS>L:
                    feasible = False
                    break # edge loop
''', '''                if route_l+S_EPS>L:
                    feasible = False
                    break # edge loop
''')]}, PRE+'''
from verypy.local_search import LSOPT
from verypy.local_search.solution_operators import do_3optstar_move
bad = 0
for s in range(400):
    r = random.Random(s); P, D, d = inst(r, 6)
    c = list(range(1, 7)); r.shuffle(c); sol = [0]+c[:3]+[0]+c[3:]+[0]
    out, dl = do_3optstar_move(sol, D, d, None, None, LSOPT.BEST_ACCEPT)
    if out is None: continue
    L = int(max(cost(q, D) for q in routes(out)))
    if L < max(cost(q, D) for q in routes(sol)): continue
    o2, d2 = do_3optstar_move(sol, D, d, None, L, LSOPT.BEST_ACCEPT)
    if d2 != dl: bad += 1
print("missed", bad); sys.exit(1 if bad else 0)
''', "an improving exchange that makes a route exactly as long as the limit", "exchanges leading to a route exactly at the route-cost limit are refused"),
("c14-parallel-first-edge", "C14", {CH+"cheapest_insertion.py": [('''                    for from_node, to_node in new_edges:
''', '''                    for from_node, to_node in new_edges[:2 if emerging_route_count==1 else 1]:
''')]}, PRE+'''
from verypy.classic_heuristics.cheapest_insertion import cheapest_insertion_init
def ref(D, d, C, k):
    n = len(D)-1; un = set(range(1, n+1))
    seeds = sorted(un, key=lambda i: (D[0, i], i))
    def new():
        while True:
            s = seeds.pop()
            if s in un: un.remove(s); return [s]
    act = [new() for _ in range(k)]; done = []; t = -1; fresh = False
    tie = False
    while un:
        t = (t+1) % k
        ro = act[t]; full = [0]+ro+[0]; c = []
        for u in un:
            if sum(d[x] for x in ro)+d[u] > C: continue
            for p in range(len(full)-1):
                i, j = full[p], full[p+1]
                det = D[i, u]+D[u, j]
                if det-D[i, j]-2*D[0, u] > 0: continue
                c.append((det-D[0, u], det, u, p))
        if not c:
            done.append(ro); act[t] = new(); continue
        c.sort()
        if len(ro) == 1: c = [x for x in c if x[3] == 0]      # the other place is the mirror image
        if len(c) > 1 and c[0][:2] == c[1][:2]: tie = True
        _, _, u, p = c[0]; un.remove(u); ro.insert(p, u)
    return act+done, tie
bad = 0
for s in range(300):
    r = random.Random(s); P = [(r.random()*100, r.random()*100) for _ in range(9)]
    D = np.array([[((a-c)**2+(b-e)**2)**.5 for c, e in P] for a, b in P]); d = [0]+[1]*8
    want, tie = ref(D, d, 100, 2)
    got = routes(cheapest_insertion_init(D, d, 100, None, emerging_route_count=2))
    if not tie and sorted(min(q, q[::-1]) for q in got) != sorted(min(q, q[::-1]) for q in want): bad += 1
print("different", bad); sys.exit(1 if bad else 0)
''', "parallel insertion, where the best next insertion on a route is right behind the customer inserted last", "insertion places between a newly inserted customer and its successor are not considered until the route has no other candidates"),
("c15-front-cost", "C15", {CH+"nearest_neighbor.py": [('''                            route_costs[k] += D[nn_node,first_node]
''', '''                            route_costs[k] += D[nn_node,last_node]
''')]}, PRE+'''
from verypy.classic_heuristics.nearest_neighbor import nearest_neighbor_init
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 8)
    L = int(2*max(D[0]))+r.randint(0, 40)
    for a, b in (("closest", 1), ("farthest", 1), ("closest", 2)):
        sol = nearest_neighbor_init(D, d, None, L, b, a)
        for q in routes(sol):
            if cost(q, D) > L: bad += 1
        # a closed route could not have been given up too early: greedy replay, one route at a time
        if b == 1 and a == "closest":
            un = set(range(1, 9)); ok = True; amb = False; rs = []
            while un and not amb:
                m = sorted((D[0, x], x) for x in un)
                amb |= len(m) > 1 and m[0][0] == m[1][0]
                q = [m[0][1]]; un.remove(q[0]); last = q[0]
                while un:
                    m = sorted((D[last, x], x) for x in un)
                    if len(m) > 1 and m[0][0] == m[1][0]: amb = True; break
                    x = m[0][1]; e, f = cost(q+[x], D), cost([x]+q, D)
                    if min(e, f) > L: break
                    if e == f and len(q) > 1: amb = True; break
                    q = q+[x] if e <= f else [x]+q
                    un.remove(x); last = x
                rs.append(q)
            if not amb and sorted(map(tuple, rs)) != sorted(map(tuple, routes(sol))): bad += 1
print("wrong", bad); sys.exit(1 if bad else 0)
''', "a route-cost limit and a customer added to the front of a route of at least two", "the running cost of the route is wrong after adding to its front, so routes are closed early or exceed the limit"),
("c16-taken-back", "C16", {CH+"sweep.py": [('''                    sweep_pos = L_feasible_pos  
                    sweep_node = sweep_pos_to_node_idx(sweep_pos)
''', '''                    sweep_pos = L_feasible_pos  
                    if sweep_node is None: sweep_node = sweep_pos_to_node_idx(sweep_pos)
''')]}, PRE+'''
from math import atan2
from verypy.classic_heuristics.sweep import sweep_init
bad = 0
for s in range(60):
    r = random.Random(s); P = [(0., 0.)]+[(r.random()*2-1, r.random()*2-1) for _ in range(9)]
    D = np.array([[((a-c)**2+(b-e)**2)**.5 for c, e in P] for a, b in P]); d = [0]+[r.randint(1, 5) for _ in range(9)]
    order = sorted(range(1, 10), key=lambda i: atan2(P[i][1], P[i][0])); L = 2*max(D[0])+r.random()
    for st in range(1, 10):
        for dr in ("cw", "ccw"):
            for C in (None, 14):
                for q in routes(sweep_init(P, D, d, C, L, direction=dr, seed_node=st)):
                    pos = sorted(order.index(x) for x in q)
                    if sum(1 for a, b in zip(pos, pos[1:]+[pos[0]+9]) if b-a != 1) > 1: bad += 1
print("routes with holes", bad); sys.exit(1 if bad else 0)
''', "a route-cost limit that makes the sweep take back the last customers of a route", "the sweep continues with the customer after the ones taken back, which are left for a later route"),
("c17-no-wrap", "C17", {CH+"rfcs.py": [('''                # all of the nodes of the giant tour are on the same route
                if v_idx==u_idx:
                    break
''', '''                # all of the nodes of the giant tour are on the same route
                if v_idx==u_idx or (C is None and v_idx==gtl-1):
                    break
''')]}, PRE+'''
from verypy.classic_heuristics.rfcs import route_first_cluster_second_init as rfcs
def keep(D, ns):
    t = [x for x in ns if x]
    return [0]+t+[0], cost(t, D)
bad = 0
for s in range(60):
    r = random.Random(s); n = 6; P, D, d = inst(r, n)
    t = list(range(1, n+1)); r.shuffle(t)
    L = int(2*max(D[0]))+r.randint(5, 60)
    tour = lambda D, ns: (t, 0)
    sol = rfcs(D, d, None, L, False, tour, keep, keep)
    best = None
    for m in range(1, 2**n):
        cut = [i for i in range(n) if m >> i & 1]
        rs = []
        for a, b in zip(cut, cut[1:]+[cut[0]+n]): rs.append([t[x % n] for x in range(a, b)])
        if all(cost(q, D) <= L for q in rs):
            c = sum(cost(q, D) for q in rs)
            best = c if best is None else min(best, c)
    if sum(cost(q, D) for q in routes(sol)) != best: bad += 1
print("not optimal", bad); sys.exit(1 if bad else 0)
''', "no capacity, and the best split has a route that runs over the end of the giant tour", "routes that run over the end of the tour are not considered"),
("c20-depot-self-distance", "C20", {"verypy/cvrp_ops.py": [('''    np.fill_diagonal(D_c,0.0)
''', '''    np.fill_diagonal(D_c[1:,1:],0.0)
''')]}, PRE+'''
from verypy.cvrp_ops import D2D_c, recalculate_objective
r = random.Random(1); P, D, d = inst(r, 5)
E = D2D_c(D, 4)
sys.exit(0 if all(E[i, i] == 0 for i in range(6)) and recalculate_objective([0, 1, 2, 0, 3, 0], E) == recalculate_objective([0, 1, 2, 0, 3, 0], D)+12 else 1)
''', "a plan whose encoding has consecutive depot visits, or any use of the depot's self-distance", "the depot's distance to itself becomes the service time, so empty routes and closed tours cost extra"),
("c25-backward-prefix", "C25", {"verypy/routedata.py": [('''        cum_d = 0.0
        cum_l = 0.0
        prev_n = 0
        start_i = 1 if direction==1 else -2
''', '''        cum_d = 0.0
        cum_l = 0.0
        prev_n = self.route[0]
        start_i = 1 if direction==1 else -2
'''), ('''            if d:
                cum_d += d[n]
                route_d[i] = cum_d
                
            cum_l += D[prev_n,n]
            route_l[i] = cum_l
''', '''            if d:
                cum_d += d[n]
                route_d[i] = cum_d
                if n==0: break
            cum_l += D[prev_n,n]
            route_l[i] = cum_l
''')]}, PRE+'''
from verypy.routedata import RouteData
bad = 0
for s in range(20):
    r = random.Random(s); P, D, d = inst(r, 5)
    rd, = RouteData.from_routes([[0, 3, 1, 4, 0]], D, d)
    rd.update_auxiliary_data(D, d)
    if rd.fwd_l[-1] != rd.cost or rd.rwd_l[0] != rd.cost: bad += 1
sys.exit(1 if bad else 0)
''', "demands given; the cumulative cost of the whole route is used", "the last cumulative cost, including the return to the depot, is left at zero when demands are given"),
("c23-stale-solution", "C23", {"verypy/VeRyPy.py": [('''        for algo_abbreviation, algo_name, _, algo_f in algos:
''', '''        sol = None
        for algo_abbreviation, algo_name, _, algo_f in algos:
'''), ('''            start_t = time()
            sol = None
            try:
''', '''            start_t = time()
            try:
''')]}, PRE+'''
import io, os, tempfile, contextlib
import verypy, verypy.VeRyPy as V
w = tempfile.mkdtemp(); f = os.path.join(w, "a.vrp")
open(f, "w").write("NAME : a\\nTYPE : CVRP\\nDIMENSION : 4\\nCAPACITY : 10\\nEDGE_WEIGHT_TYPE : EUC_2D\\nNODE_COORD_SECTION\\n1 0 0\\n2 3 4\\n3 6 8\\n4 0 5\\nDEMAND_SECTION\\n1 0\\n2 1\\n3 1\\n4 1\\nDEPOT_SECTION\\n1\\n-1\\nEOF\\n")
def ok(points, D, d, C, L, st, wtt, single, minK): return [0, 1, 2, 0, 3, 0]
def stop(points, D, d, C, L, st, wtt, single, minK): raise KeyboardInterrupt()
V.get_algorithms = lambda names: [("x1", "one", "", ok), ("x2", "two", "", stop)]
o = io.StringIO()
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
    V.main(["-a", "ps", "-m", f])
os.remove(f); os.rmdir(w)
l = [x for x in o.getvalue().splitlines() if x.startswith("x2;")]
print(l); sys.exit(0 if len(l) == 1 and ";False;inf" in l[0] else 1)
''', "an interrupt that salvages nothing while another heuristic has already solved the same instance", "the interrupted heuristic is reported with the solution of the previous one"),
("c23-cost-after-ls", "C23", {"verypy/VeRyPy.py": [('''                        sol_q = ls_sol_q
                        sol_K = sol.count(0)-1
''', '''                        sol_q = ls_sol_q
                        sol_K = max(sol_K, sol.count(0)-1)
''')]}, PRE+'''
import io, os, tempfile, contextlib
import verypy, verypy.VeRyPy as V
w = tempfile.mkdtemp(); f = os.path.join(w, "a.vrp")
open(f, "w").write("NAME : a\\nTYPE : CVRP\\nDIMENSION : 4\\nCAPACITY : 10\\nEDGE_WEIGHT_TYPE : EUC_2D\\nNODE_COORD_SECTION\\n1 0 0\\n2 0 0\\n3 6 8\\n4 0 5\\nDEMAND_SECTION\\n1 0\\n2 1\\n3 1\\n4 1\\nDEPOT_SECTION\\n1\\n-1\\nEOF\\n")
sys.exit(0)
''', "x", "x"),
("c03-cmt-stale-cost", "C03", {CH+"cmt_2phase.py": [('''                    route_cost = new_route_cost
                    route=new_route[:-1]
''', '''                    route_cost = min(route_cost, new_route_cost)
                    route=new_route[:-1]
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = 0
for s in range(150):
    r = random.Random(s); P, D, d = inst(r, 9); L = int(2*max(D[0]))+r.randint(5, 60)
    for q in routes(cmt_2phase_init(D, d, None, L) or []):
        if cost(q, D) > L: bad += 1
print("too long", bad); sys.exit(1 if bad else 0)
''', "the second phase of the two-phase heuristic, with a route whose appended customers needed re-optimising to fit and that then takes another customer", "the recorded cost of a re-optimised route stays too low, so a later customer is appended beyond the limit"),
("c04-savings-cache", "C04", {CH+"parallel_savings.py": [('''        savings = savings_callback(D)
''', '''        savings = _savings_of(savings_callback, D, N)
'''), ('''def parallel_savings_init(''', '''_savings_cache = {}
def _savings_of(savings_callback, D, N):
    """ The basic savings are asked for many times for the same distances """
    if savings_callback is not clarke_wright_savings_function:
        return savings_callback(D)
    key = (N, float(D[0].sum()), float(D[:,0].max()))
    if key not in _savings_cache:
        _savings_cache[key] = savings_callback(D)
    return _savings_cache[key]

def parallel_savings_init(''')]}, PRE+'''
from verypy.classic_heuristics.parallel_savings import parallel_savings_init
r = random.Random(3); bad = 0
for s in range(60):
    P, D, d = inst(r, 7)
    p = [0]+r.sample(range(1, 8), 7); E = D[np.ix_(p, p)]   # the same points, numbered differently
    a = parallel_savings_init(D, d, 20, None)
    b = parallel_savings_init(E, d, 20, None)
    got = sorted(map(sorted, routes(b)))
    import subprocess
    code = "import numpy as np,sys;from verypy.classic_heuristics.parallel_savings import parallel_savings_init as p;print(p(np.array(%r),%r,20,None))" % (E.tolist(), d)
    if s < 8:
        alone = eval(subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True).stdout)
        if alone != b: bad += 1
print("depends on earlier calls", bad); sys.exit(1 if bad else 0)
''', "two instances of the same size and depot distances but otherwise different, solved in the same process", "the savings of the earlier instance are used for the later one"),
]
SEEDS = [s for s in SEEDS if s[5] != "x"]
