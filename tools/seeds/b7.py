import runpy, os
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
CH, PRE, IR, LS = _b3["CH"], _b3["PRE"], _b3["IR"], _b3["LS"]
GAP = PRE+'''
import itertools
from verypy.classic_heuristics.gapvrp import gap_init
from sklearn.cluster import KMeans
def best(D, S, d, C, K, groups):
    n = len(D)-1; det = [[D[0, i]+S[k][i]-S[k][0] for k in range(K)] for i in range(n+1)]
    opt = None
    for a in itertools.product(range(K), repeat=n):
        ld = [0]*K
        for i, k in enumerate(a): ld[k] += d[i+1]
        if max(ld) > C: continue
        c = sum(det[i+1][k] for i, k in enumerate(a)); opt = c if opt is None else min(opt, c)
    got = min(sum(det[i][k] for q, k in zip(groups, p) for i in q) for p in itertools.permutations(range(K), len(groups)))
    return opt, got
'''
SEEDS = [
("c37-cmt-length-solved", "C37", {CH+"cmt_2phase.py": [('''            # if L is not set, optimize TSP after the route is full
            if not route_l_updated:
''', '''            # if L is not set, optimize TSP after the route is full
            if not (route_l_updated or (L and len(route)<6)):
''')]}, PRE+'''
from verypy.classic_heuristics.cmt_2phase import cmt_2phase_init
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 8, 1, 60); C = 12
    a = cmt_2phase_init(D, d, C, None, False); b = cmt_2phase_init(D, d, C, 100000, False)
    bad += sum(cost(q, D) for q in routes(a)) != sum(cost(q, D) for q in routes(b))
print("costs that depend on an idle limit", bad); sys.exit(1 if bad else 0)
''', "a route cost limit and a short route of phase one whose customers were not added in the best order", "phase one takes short routes for solved whenever a route cost limit is given"),
("c37-2optstar-relink", "C37", {IR: [('''            delta = D[a,d] + D[b,c] \\
                     -D[a,b]-D[c,d]
            if delta+S_EPS<best_delta:
''', '''            delta = D[a,d] + D[b,c] \\
                     -D[a,b]-D[c,d]
            if delta+S_EPS<best_delta and (C or i+1<len(route1_data.route)-1 or j==0 or b!=0):
''')]}, PRE+'''
from verypy.local_search import do_local_search, LSOPT
from verypy.local_search.inter_route_operators import do_2optstar_move
bad = 0
for s in range(2000):
    r = random.Random(s); P, D, d = inst(r, 6, 1, 60)
    c = list(range(1, 7)); r.shuffle(c); t = [0]+c[:3]+[0]+c[3:]+[0]
    L = max(cost(q, D) for q in routes(t))
    a = do_local_search([do_2optstar_move], list(t), D, d, None, L); b = do_local_search([do_2optstar_move], list(t), D, d, 10**6, L)
    bad += sum(cost(q, D) for q in routes(a)) != sum(cost(q, D) for q in routes(b))
print("costs that depend on an idle limit", bad); sys.exit(1 if bad else 0)
''', "no capacity and an improving relink that appends a tail to the end of the other route", "2-opt* does not append a tail to the end of the first route unless a capacity is given"),
("c38-edge-weight-type", "C38", {CH+"gapvrp.py": [('''                S = calculate_D(seed_points, points, seed_edge_weight_type)
''', '''                S = calculate_D(seed_points, points, seed_edge_weight_type
                                if not int_dists else 'EUC_2D')
''')]}, GAP+'''
bad = 0
for s in range(150):
    r = random.Random(s); P = [(r.randint(0, 40), r.randint(0, 40)) for _ in range(7)]; n = 6
    D = np.array([[abs(a-c)+abs(b-e) for c, e in P] for a, b in P]); C = 10
    d = [0, r.randint(6, 8), r.randint(6, 8)]+[r.choice([0, 1, 1, 2]) for _ in range(4)]
    if sum(d) > 20: continue
    sol = gap_init([tuple(map(float, p)) for p in P], D, d, C, K=2, find_optimal_seeds=False, seed_method="large_demands", seed_edge_weight_type="MAN_2D")
    if sol is None: continue
    opt, got = best(D, [D[1], D[2]], d, C, 2, routes(sol)); bad += got > opt
print("dearer than the cheapest assignment", bad); sys.exit(1 if bad else 0)
''', "whole-number distances of a type other than EUC_2D, where the detours rank differently", "the distances to the seeds are Euclidean whenever the distance matrix holds whole numbers, whatever the edge weight type"),
("c38-kmeans-depot", "C38", {CH+"gapvrp.py": [('''    kmeans = KMeans(n_clusters=K, random_state=trial).fit(points[1:])
    return kmeans.cluster_centers_.tolist()
''', '''    kmeans = KMeans(n_clusters=K, random_state=trial).fit(points)
    return kmeans.cluster_centers_.tolist()
''')]}, GAP+'''
bad = 0
for s in range(120):
    r = random.Random(s); P, D, d = inst(r, 6, 1, 60, False); C = max(max(d), sum(d)//2+3)
    pts = [tuple(map(float, p)) for p in P]
    sol = gap_init(pts, D, d, C, K=2, find_optimal_seeds=False, seed_method="kmeans")
    if sol is None: continue
    cs = KMeans(n_clusters=2, random_state=0).fit(pts[1:]).cluster_centers_
    S = [[int(np.round(((x-a)**2+(y-b)**2)**.5)) for a, b in pts] for x, y in cs]
    opt, got = best(D, S, d, C, 2, routes(sol)); bad += got > opt
print("dearer than the cheapest assignment to the cluster centres", bad); sys.exit(1 if bad else 0)
''', "k-means seeds and a depot that pulls a cluster centre far enough to change the assignment", "the depot is clustered together with the customers, so a seed may stand by the depot"),
]
