import runpy, os
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
CH, PRE = _b3["CH"], _b3["PRE"]
MB = '''
import itertools
def best(D, S, memo={}):
    S = tuple(sorted(x for x in S if x)); k = (id(D), S)
    if k not in memo:
        memo[k] = min((cost(p, D), p) for p in itertools.permutations(S))
    return memo[k]
def tsp(D, nodes):
    c, p = best(D, nodes); return [0]+list(p)+[0], float(c)
'''
SEEDS = [
("c31-later-pairs", "C31", {CH+"matchingvrp.py": [('''for k, rs2 in enumerate(route_sets) if k!=i_prime]''', '''for k, rs2 in enumerate(route_sets) if k>i_prime]''')]}, PRE+MB+'''
from verypy.classic_heuristics.matchingvrp import mbsa_init
# nothing limits the routes and the distances are metric: everybody ends up on one route if vehicles are minimised
bad = 0
for s in range(40):
    r = random.Random(s); P, D, d = inst(r, 6)
    sol = mbsa_init(D, d, 1000, None, True, W=-10000.0, solve_tsp=tsp)
    bad += len(routes(sol)) != 1
print("more than one route", bad); sys.exit(1 if bad else 0)
''', "a merge after which the merged route is not the first one of the list", "the savings of the merged route with the routes before it are lost, so later matchings miss pairs or none is found"),
("c31-full-truck", "C31", {CH+"matchingvrp.py": [('''        if s1s2_d-C_EPS>C:
            return W # cap''', '''        if s1s2_d+C_EPS>C:
            return W # cap''')]}, PRE+MB+'''
from verypy.classic_heuristics.matchingvrp import mbsa_init
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 4); d = [0, 3, 4, 3, 4]; C = 7
    D = D+4
    for i in range(5): D[i, i] = 0
    # two routes of 3+4 fill two vehicles exactly
    sol = mbsa_init(D, d, C, None, True, W=-10000.0, solve_tsp=tsp)
    bad += len(routes(sol)) != 2
print("not two full vehicles", bad); sys.exit(1 if bad else 0)
''', "two routes whose demands fill a vehicle exactly", "merges that fill a vehicle exactly are taken for forbidden"),
("c32-extended-skipped", "C32", {CH+"petalvrp.py": [('''            elif ((not best_sol_feasible or ptl_cnt<=ALWAYS_USE_ALL_PETALS_LIMIT)''', '''            elif ((not best_sol_feasible and ptl_cnt<=ALWAYS_USE_ALL_PETALS_LIMIT)''')]}, PRE+'''
from verypy.classic_heuristics import petalvrp as PV
# given petals: full ones in the restricted set, the rest in the reduced and the extended set
bad = 0
for s in range(400):
    r = random.Random(s); n = 5; P, D, d = inst(r, n); C = max(d)+r.randint(4, 12)
    w = [[r.choice([1, 2, 3, 5, 9, 14]) for _ in D] for _ in D]
    D = np.array([[0 if i == j else w[min(i, j)][max(i, j)] for j in range(n+1)] for i in range(n+1)])
    for k in range(n+1): D = np.minimum(D, D[:, [k]]+D[[k], :])
    ps = {(x,) for x in range(1, n+1)}
    for _ in range(14):
        q = tuple(r.sample(range(1, n+1), r.choice([2, 2, 3, 4])))
        if sum(d[x] for x in q) <= C: ps.add(q)
    ps = sorted(ps); S = [PV.PetalSet([], [], []) for _ in range(3)]
    for q in ps:
        k = 0 if sum(d[x] for x in q) >= .75*C else r.choice([1, 2]); t = [0]+list(q)+[0]
        S[k].nodes.append(set(t)); S[k].routes.append(t); S[k].costs.append(float(cost(q, D)))
    sol = PV.petal_init(P, D, d, C, None, relaxe_SCP_solutions=False, predefined_petals_generator=lambda: S)
    c = sum(cost(q, D) for q in routes(sol))
    def best(left):
        if not left: return 0
        x = min(left); return min(cost(q, D)+best(left-set(q)) for q in ps if x in q and set(q) <= left)
    bad += c > best(frozenset(range(1, n+1)))
print("plans dearer than another selection", bad); sys.exit(1 if bad else 0)
''', "petals that make a feasible but not cheapest plan in the restricted or reduced set", "the complete petal set is not tried once a feasible plan is known, so a cheaper selection is missed"),
("c33-seedtrial-carry", "C33", {CH+"gapvrp.py": [('''                # do not try different K if we found a solution
                if best_sol:
                    break # K loop
            else: # not''', '''                # do not try different K if we found a solution
                if best_sol and not found_improving_solution_for_this_K:
                    break # K loop
                if best_sol and seed_trial<N:
                    break
            else: # not'''), ('''                    if is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):''', '''                    if is_better_sol(best_f, best_K, sol_f, sol_K, False):''')]}, PRE+'''
from verypy.classic_heuristics.gapvrp import gap_init
bad = 0
for s in range(60):
    r = random.Random(s); P, D, d = inst(r, 6, metric=False)
    P = [(50, 50)]+[(r.choice([0, 100])+r.randint(0, 3), r.choice([0, 100])+r.randint(0, 3)) for _ in range(6)]
    D = np.array([[int(round(((a-c)**2+(b-e)**2)**.5)) for c, e in P] for a, b in P])
    for i in range(7):
        for j in range(1, 7):
            if i == 0: D[0, j] = D[j, 0] = 5
    d = [0]+[2]*6; C = 6
    k = len(routes(gap_init(P, D, d, C, minimize_K=True)))
    bad += k != 2
print("more vehicles than needed", bad); sys.exit(1 if bad else 0)
''', "minimising vehicles where one more vehicle is cheaper (a depot in the middle)", "the search goes on to more vehicles and prefers the cheaper plan"),
("c05-greedy-merge-load", "C05", {CH+"matchingvrp.py": [('''            if C and d_i+d_j-C_EPS>C: continue
''', '''            if C and saving==W and d_i+d_j-C_EPS>C: continue
''')]}, PRE+'''
from verypy.classic_heuristics.matchingvrp import mbsa_init
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_3opt
bad = 0
for s in range(150):
    r = random.Random(s); P, D, d = inst(r, 7); C = r.randint(12, 20); left = [r.randint(1, 60)]
    def tsp(D, nodes):
        left[0] -= 1
        if left[0] < 0: raise KeyboardInterrupt()
        return solve_tsp_3opt(D, [0]+[x for x in nodes if x])
    try: sol = mbsa_init(D, d, C, None, solve_tsp=tsp)
    except KeyboardInterrupt as e: sol = e.args[0]
    bad += any(sum(d[x] for x in q) > C for q in routes(sol))
print("overloaded", bad); sys.exit(1 if bad else 0)
''', "an interrupt while the first savings are being computed", "the greedy plan passed on joins routes whose loads together exceed the capacity"),
("c34-mj-last-redistribution", "C34", {CH+"mole_jameson_insertion.py": [("""            sol = updated_sol
""", """            # there is nothing more to gain if one route is left
            sol, local_optima_reached = updated_sol, minimize_K and len(redisribute_result)<=3
""")]}, PRE+"""
from verypy.classic_heuristics.mole_jameson_insertion import mole_jameson_insertion_init
bad = 0
for s in range(1500):
    r = random.Random(s); n = r.choice([5, 6, 7]); P, D, d = inst(r, n); C = sum(d)+r.randint(0, 3)
    w = [[r.choice([1, 1, 2, 5, 9, 30]) for _ in D] for _ in D]
    D = np.array([[0 if i == j else w[min(i, j)][max(i, j)] for j in range(n+1)] for i in range(n+1)])
    sol = mole_jameson_insertion_init(D, d, C, None, minimize_K=True)
    for q in routes(sol):
        c = cost(q, D)
        bad += any(cost(q[:i]+q[i:j][::-1]+q[j:], D) < c for i in range(len(q)) for j in range(i+2, len(q)+1))
print("routes that 2-opt improves", bad); sys.exit(1 if bad else 0)
""", "minimising vehicles, and a redistribution that leaves one route", "the remaining route is returned without the final 2-opt and relocation search"),
("c29-tyagi-open-end", "C29", {CH+"tyagi_nearest_neighbor.py": [("""                      -D[to_remove_node,insert_before]\\
                      +D[insert_after, next_nearer] \\
                      +D[next_nearer,insert_before]""", """                      +D[insert_after, next_nearer]
            if try_to_interchange_all or insert_before!=0: # or the end is open
                l_delta += D[next_nearer,insert_before]\\
                          -D[to_remove_node,insert_before]""")]}, PRE+"""
from verypy.classic_heuristics.tyagi_nearest_neighbor import tyagi_init
bad = 0
for s in range(400):
    r = random.Random(s); P, D, d = inst(r, r.choice([5, 6, 7])); C = r.randint(15, 40); L = 2*max(D[0])+r.choice([0, 1, 5, 10, 20])
    sol = tyagi_init(D, d, C, L, try_interchange_with_all_group_customers=False)
    bad += any(cost(q, D) > L for q in routes(sol))
print("too long", bad); sys.exit(1 if bad else 0)
""", "a route cost limit, the interchange of only the first and last customer, and a last customer swapped for one farther from the depot", "the way back to the depot is not counted when the last customer is swapped"),
]
