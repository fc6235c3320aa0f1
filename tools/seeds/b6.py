import runpy, os
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
CH, PRE = _b3["CH"], _b3["PRE"]
SEEDS = [
("c36-list-not-resorted", "C36", {CH+"suppression_savings.py": [('''            modified_savings = True
''', '''            modified_savings = si>0
''')]}, PRE+'''
from verypy.classic_heuristics.suppression_savings import suppression_savings_init
from verypy.classic_heuristics.parallel_savings import parallel_savings_init
def rounds(D, d, C, k):
    n = len(D)-1; supp = set(); best = None
    for _ in range(k):
        key = lambda i, j: (0 if (i, j) in supp else max(0, D[i, 0]+D[0, j]-D[i, j]), -D[i, j], i, j)
        lst = sorted((key(i, j) for i in range(1, n+1) for j in range(i+1, n+1)), reverse=True)
        sol = parallel_savings_init(D, d, C, None, False, lambda _D: list(lst))
        c = sum(cost(q, D) for q in routes(sol)); best = c if best is None else min(best, c)
        supp.add(lst[0][2:])
    return best
bad = 0
for s in range(150):
    r = random.Random(s); P, D, d = inst(r, 9, 1, 200); C = 16
    sol = suppression_savings_init(D, d, C, None, False, 5)
    bad += sum(cost(q, D) for q in routes(sol)) != rounds(D, d, C, 5)
print("other than the best of the rounds", bad); sys.exit(1 if bad else 0)
''', "two rounds or more and an instance on which a later round is better", "the list of savings is not put in order again after its top pair was suppressed, so the pair is still merged first"),
]
