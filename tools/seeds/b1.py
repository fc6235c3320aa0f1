LS = "verypy/local_search/__init__.py"; IR = "verypy/local_search/inter_route_operators.py"
RNDI = '''
import sys, random, numpy as np
def inst(r, n, lo=1, hi=60):
    P = [(r.randint(0, hi), r.randint(0, hi)) for _ in range(n+1)]
    D = np.array([[int(round(((a-c)**2+(b-d)**2)**.5)) for c, d in P] for a, b in P])
    return P, D, [0]+[r.randint(1, 9) for _ in range(n)]
'''
SEEDS = [
("c11-stale-triples", "C11", {LS: [('''                for ri in ris:
                    customer_to_at_lsopt_optimal[ri].append(ris)
''', '''                for ri in ris[:2]:
                    customer_to_at_lsopt_optimal[ri].append(ris)
''')]}, RNDI+'''
from verypy.local_search import do_local_search, LSOPT, ITEROPT
from verypy.local_search.inter_route_operators import do_1point_move, do_chain_move
from verypy.routedata import RouteData
from itertools import permutations
bad = 0
for s in range(400):
    r = random.Random(s); n = 10; P, D, d = inst(r, n)
    c = list(range(1, n+1)); r.shuffle(c); rs = [c[k:k+2] for k in range(0, n, 2)]
    sol = [0]
    for q in rs: sol += q+[0]
    C = max(sum(d[x] for x in q) for q in rs)+r.choice([0, 2])
    ops = [do_1point_move, do_chain_move]; r.shuffle(ops)
    res = do_local_search(ops, sol, D, d, C, None, LSOPT.FIRST_ACCEPT, r.choice([ITEROPT.FIRST_ACCEPT, ITEROPT.ALL_ACCEPT]))
    rds = [x for x in RouteData.from_solution(res, D, d)]
    for t in permutations(rds, 3):
        if do_chain_move(t[0], t[1], t[2], D, d, C, None, LSOPT.BEST_ACCEPT)[-1] is not None: bad += 1
print("improvable", bad); sys.exit(1 if bad else 0)
''', "an operator over three routes that finds nothing for a triple, after which only the third route of that triple changes",
"the search stops although an operator can still improve a triple of routes, because the memo of searched triples is not invalidated for their third route"),
("c08-2optstar-prefix-load", "C08", {IR: [('''                if C:
                    r1_new_demand = route1_data.fwd_d[i]+route2_data.rwd_d[j+1]
                    r2_new_demand = route1_data.rwd_d[i+1]+route2_data.fwd_d[j]
''', '''                if C:
                    r1_new_demand = route1_data.fwd_d[i]+route2_data.rwd_d[j+1]
                    r2_new_demand = route1_data.rwd_d[i]+route2_data.fwd_d[j]
''')]}, RNDI+'''
from verypy.local_search import LSOPT
from verypy.local_search.inter_route_operators import do_2optstar_move
from verypy.routedata import RouteData
bad = 0
for s in range(200):
    r = random.Random(s); P, D, d = inst(r, 6)
    c = list(range(1, 7)); r.shuffle(c)
    a, b = RouteData.from_routes([[0]+c[:3]+[0], [0]+c[3:]+[0]], D, d)
    C = max(a.demand, b.demand)
    x, y, dl = do_2optstar_move(a, b, D, d, C, None, LSOPT.BEST_ACCEPT)
    if x is not None:
        for z in (x, y):
            if sum(d[k] for k in z.route) != z.demand: bad += 1
print("wrong loads", bad); sys.exit(1 if bad else 0)
''', "a tail exchange of 2-opt* (second reconnection) with a capacity limit, where the customer before the cut has a demand",
"the load of the second new route counts the customer before the cut, so the recorded load is wrong and feasible improving moves at the capacity are refused"),
("c18-midroute-edge", "C18", {"verypy/cvrp_ops.py": [('''    prev_node = solution[-1]
    for i,node''', '''    prev_node = solution[-1] if solution[-1]==0 else solution[0]
    for i,node''')]}, '''
import sys, numpy as np
from verypy.cvrp_ops import validate_solution_feasibility as v
D = np.array([[0,5,5,5],[5,0,9,2],[5,9,0,2],[5,2,2,0]])
# the tour starts in the middle of the route 0-2-1-0: edge 2..1 closes it
print(v([1,0,3,0,2], D, [0,1,1,1], 9, 12), v([1,0,3,0,2], D, [0,1,1,1], 9, 19))
sys.exit(0 if v([1,0,3,0,2], D, [0,1,1,1], 9, 12)==(True,True,False) and v([1,0,3,0,2], D, [0,1,1,1], 9, 19)==(True,True,True) else 1)
''', "a tour written from the middle of a route, with a limit that the closing edge exceeds",
"the edge that closes a tour written from the middle of a route is not counted, so an overlong route is reported feasible"),
("c19-open-routes-cost", "C19", {"verypy/cvrp_ops.py": [('''            if route[-1]!=0:
                f+=D[route[-1],0]
''', '''            elif route[-1]!=0:
                f+=D[route[-1],0]
''')]}, '''
import sys, numpy as np
from verypy.cvrp_ops import recalculate_objective as f
D = np.array([[0,3,4],[3,0,5],[4,5,0]])
print(f([[1,2]], D), f([[0,1,2]], D), f([[0,1,2,0]], D), f([[1,2,0]], D))
sys.exit(0 if f([[1,2]], D)==12 and f([[0,1,2]], D)==12 and f([[1,2,0]], D)==12 else 1)
''', "a list of routes in which a route has neither depot end", "the edge back to the depot is left out of the recomputed cost"),
("c21-depot-demand-swap", "C21", {"verypy/cvrp_io.py": [('''            demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
''', '''            demands[0], demands[idx_0] = demands[idx_0], demands[0]
''')]}, '''
import sys, os, tempfile
from verypy.cvrp_io import read_TSPLIB_CVRP
t = "NAME: x\\nTYPE: CVRP\\nDIMENSION: 4\\nCAPACITY: 9\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION\\n1 1 0\\n2 2 0\\n3 0 0\\n4 5 0\\nDEMAND_SECTION\\n1 1\\n2 2\\n3 0\\n4 4\\nDEPOT_SECTION\\n3\\n-1\\nEOF\\n"
d = tempfile.mkdtemp(); p = os.path.join(d, "x.vrp"); open(p, "w").write(t)
q = read_TSPLIB_CVRP(p); os.unlink(p); os.rmdir(d)
print(q.customer_demands, q.coordinate_points)
sys.exit(0 if [int(x) for x in q.customer_demands]==[0,1,2,4] and [int(x[0]) for x in q.coordinate_points]==[0,1,2,5] else 1)
''', "a file whose depot is the third or a later node", "the demands are reordered in another way than coordinates and matrix, so customers get each other's demands"),
("c22-vrph-first", "C22", {"verypy/cvrp_io.py": [('''        elif visit_depot:
            vrph_sol.append(-node)
            visit_depot = False
''', '''        elif visit_depot and vrph_sol[-1]!=-node+1:
            vrph_sol.append(-node)
            visit_depot = False
''')]}, '''
import sys
from verypy.cvrp_io import as_VRPH_solution as f
print(f([0,1,0,2,0,3,4,0]))
sys.exit(0 if f([0,1,0,2,0,3,4,0])==[5,-1,-2,-3,4,0] else 1)
''', "a single-customer route directly followed by a route that starts with the next customer number", "the first customer of a route is not marked, so two routes are read as one"),
("c26-bulk-removal-index", "C26", {"verypy/util.py": [('''        for element in collection:
            self.ods.pop(element, None)
        self.keylist = None # needs update
''', '''        present = False
        for element in collection:
            present = self.ods.pop(element, self) is None
        if present:
            self.keylist = None # needs update
''')]}, '''
import sys
from verypy.util import OrderedDictSet as S
s = S([1,2,3]); s[0]; s.difference_update([1, 9])
print(s[0], list(s)); sys.exit(0 if s[0]==2 and s[-1]==3 and list(s)==[2,3] else 1)
''', "indexing, then a bulk removal whose last element is not in the set, then indexing again", "the index list keeps removed elements"),
("c27-regular-spacing", "C27", {"verypy/cvrp_io.py": [('''            alpha+=(2*pi/N)
''', '''            alpha+=(2*pi/max(N,3))
''')]}, '''
import sys
from verypy.cvrp_io import generate_CVRP
q = generate_CVRP(2, 10, 3, 1, True, 100.0)
print(q.distance_matrix); sys.exit(0 if q.distance_matrix[1][2]==200 else 1)
''', "a regular instance with two customers", "the customers are not spaced evenly around the depot"),
("c24-3opt-rounds", "C24", {"verypy/tsp_solvers/tsp_solver_ropt.py": [('''            improved_route, delta = do_3opt_move(new_route, D, 1)
            if improved_route is not None:
                new_route = improved_route 
                new_route_cost+=delta
                improved = True
            
    return''', '''            improved_route, delta = do_3opt_move(new_route, D, 1)
            if improved_route is not None and improved_route!=new_route:
                new_route = improved_route 
                new_route_cost+=delta
                improved = delta*len(new_route)<-0.05*new_route_cost
            
    return''')]}, RNDI+'''
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt
from verypy.local_search.intra_route_operators import do_2opt_move, do_3opt_move
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 12, hi=300)
    t, f = solve_tsp_ropt(D, list(range(13)))
    if do_2opt_move(t, D, 2)[0] is not None or do_3opt_move(t, D, 2)[0] is not None: bad += 1
print("not locally optimal", bad); sys.exit(1 if bad else 0)
''', "a tour on which a 3-opt move gains little while another improving move remains", "the solver stops before the tour is 2-opt/3-opt optimal"),
]
