"""Stand-in for the LKH and ACOTSP programs: reads the problem it is given, notes it in $FAKE_LOG and prints a tour.
FAKE_MODE: good (short tours) or perm:SEED (any tour)."""
import sys, os, json, random
def read(p):
    n = 0; it = iter(open(p).read().split("\n")); rows = []; fmt = ""
    for l in it:
        k, _, v = l.partition(":"); k = k.strip()
        if k == "DIMENSION": n = int(v)
        elif k == "EDGE_WEIGHT_FORMAT": fmt = v.strip()
        elif k == "EDGE_WEIGHT_SECTION": rows = [float(x) for l in it for x in l.split() if x != "EOF"]
    if fmt != "UPPER_ROW" or len(rows) != n*(n-1)//2 or any(x != int(x) for x in rows): sys.exit(3)
    M = [[0]*n for _ in range(n)]; q = iter(rows)
    for i in range(n):
        for j in range(i+1, n): M[i][j] = M[j][i] = int(next(q))
    return M
def good(M):
    n = len(M)
    if n <= 9:
        best = {(1, 0): (0, (0,))}
        for _ in range(n-1):
            nx = {}
            for (S, e), (c, p) in best.items():
                for x in range(n):
                    if not S >> x & 1:
                        v = (c+M[e][x], p+(x,)); k = (S | 1 << x, x)
                        if k not in nx or v < nx[k]: nx[k] = v
            best = nx
        return list(min((c+M[e][0], p) for (S, e), (c, p) in best.items())[1])
    t = [0]; left = set(range(1, n))
    while left: x = min(left, key=lambda y: (M[t[-1]][y], y)); left.remove(x); t.append(x)
    go = True
    while go:
        go = False
        for i in range(n-1):
            for j in range(i+2, n):
                a, b, c, d = t[i], t[i+1], t[j], t[(j+1) % n]
                if a != d and M[a][c]+M[b][d] < M[a][b]+M[c][d]: t[i+1:j+1] = t[i+1:j+1][::-1]; go = True
    return t
def main():
    lkh = "-i" not in sys.argv
    if lkh:
        par = dict((k.strip(), v.strip()) for k, _, v in (l.partition("=") for l in open(sys.argv[1])))
        src, out = par["PROBLEM_FILE"], par["OUTPUT_TOUR_FILE"]
    else: src = sys.argv[sys.argv.index("-i")+1]
    M = read(src); n = len(M); mode = os.environ["FAKE_MODE"]
    if mode == "good": t = good(M); s = n // 2; t = t[s:]+t[:s]
    else: t = list(range(n)); random.Random(mode).shuffle(t)
    f = sum(M[t[k-1]][t[k]] for k in range(n))
    if os.environ.get("FAKE_LOG"):
        with open(os.environ["FAKE_LOG"], "w") as fh: json.dump(dict(M=M, t=[x+1 for x in t]), fh)
    if lkh:
        with open(out, "w") as fh:
            fh.write("NAME : temporary.%d.tour\nCOMMENT : Length = %d\nCOMMENT : Found by LKH [Keld Helsgaun]\nTYPE : TOUR\nDIMENSION : %d\nTOUR_SECTION\n" % (f, f, n))
            fh.write("\n".join(str(x+1) for x in t)+"\n-1\nEOF\n")
        print("Press any key to continue"); sys.stdin.read(1)
    else:
        print("try 0, Best %d, found at iteration 1" % f); print("best solution so far is "+" ".join(map(str, t)))
main()
