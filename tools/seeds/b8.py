import runpy, os
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
CH, PRE, IR, LS = _b3["CH"], _b3["PRE"], _b3["IR"], _b3["LS"]
TWO = '''
def differ(f, tries, n, hi, fd, fq, C, seed=0):
    bad = 0
    for s in range(tries):
        r = random.Random(seed+s); P, D, d = inst(r, n, 1, hi)
        a = f(P, D, d, C); b = f([(x*fd, y*fd) for x, y in P], D*fd, [x*fq for x in d], C*fq)
        ca, cb = [sum(cost(q, D) for q in routes(x)) for x in (a, b)]
        bad += ca != cb or len(routes(a)) != len(routes(b))
    print("plans that depend on the units or number types", bad); sys.exit(1 if bad else 0)
'''
SEEDS = [
("c39-gaskell-typed", "C39", {CH+"gaskell_savings.py": [('''            pi_AB = D[i,0]+D[0,j]-2*D[i,j]
            savings[idx] = (pi_AB, -D[i,j], i,j)
''', '''            pi_AB = round(D[i,0]+D[0,j]-2*D[i,j], 3)
            savings[idx] = (pi_AB, -D[i,j], i,j)
''')]}, PRE+TWO+'''
from verypy.classic_heuristics.gaskell_savings import gaskell_savings_init
differ(lambda P, D, d, C: gaskell_savings_init(D, d, C, None, False, "pi"), 200, 9, 60, 1./1024, 1, 12)
''', "distances in a large unit, so that savings differ only after the third decimal", "pi savings are rounded to three decimals"),
("c39-full-route", "C39", {CH+"sequential_savings.py": [('''                if C: route_d+=d[j]
''', '''                if C:
                    route_d+=d[j]
                    if C-route_d<0.5:
                        # the vehicle is full
                        savings = []
''')]}, PRE+TWO+'''
from verypy.classic_heuristics.sequential_savings import sequential_savings_init
differ(lambda P, D, d, C: sequential_savings_init(D, d, C, None, False), 200, 9, 60, 1, 1./64, 12)
''', "demands given as small fractions of a unit", "a vehicle with less than half a unit of capacity left is taken for full"),
("c39-gm-average", "C39", {CH+"gillet_miller_sweep.py": [('''    avr = np.average( sweep_phi_rho_nodes[1] )
''', '''    avr = max(1.0, np.average( sweep_phi_rho_nodes[1] ))
''')]}, PRE+TWO+'''
from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init
differ(lambda P, D, d, C: gillet_miller_init(P, D, d, C, None, False), 300, 9, 60, 1./1024, 1, 15)
''', "coordinates whose average distance from the depot is below one", "the average radius that weighs angles in the Gillett and Miller rule is at least one"),
("c39-wh-origin", "C39", {CH+"wren_holliday_sweep.py": [('''                avgx, avgy = np.average(weighted_xy_from_origin, axis = 0)
''', '''                avgx, avgy = np.average(weighted_xy_from_origin+o, axis = 0)-np.abs(o)
''')]}, PRE+'''
from verypy.classic_heuristics.wren_holliday_sweep import wren_holliday_init
bad = 0
for s in range(300):
    r = random.Random(s); P, D, d = inst(r, 9, 1, 60)
    a, b = [wren_holliday_init([(x+m, y+m) for x, y in P], D, d, 12, None, False) for m in (0, -200)]
    bad += sum(cost(q, D) for q in routes(a)) != sum(cost(q, D) for q in routes(b))
print("plans that depend on the origin", bad); sys.exit(1 if bad else 0)
''', "a depot with a negative coordinate", "the least dense direction is measured from the mirrored depot when its coordinates are negative"),
("c39-1point-whole-limit", "C39", {IR: [('''            if L and r2_l+insert_delta-S_EPS>L:
''', '''            if L and int(r2_l+insert_delta-S_EPS)>L:
''')]}, PRE+'''
from verypy.local_search import do_local_search, LSOPT
from verypy.local_search.inter_route_operators import do_1point_move
bad = 0
for s in range(2000):
    r = random.Random(s); P, D, d = inst(r, 6, 1, 60)
    c = list(range(1, 7)); r.shuffle(c); t = [0]+c[:3]+[0]+c[3:]+[0]
    L = max(cost(q, D) for q in routes(t))
    a = do_local_search([do_1point_move], list(t), D, d, None, L); f = 1./64
    b = do_local_search([do_1point_move], list(t), D*f, d, None, L*f)
    bad += sum(cost(q, D) for q in routes(a)) != sum(cost(q, D) for q in routes(b))
print("plans that depend on the unit of the distances", bad); sys.exit(1 if bad else 0)
''', "distances that are not whole numbers and a cost limit that an insertion exceeds by less than one", "the one point move compares whole numbers of the route cost with the limit"),
]
