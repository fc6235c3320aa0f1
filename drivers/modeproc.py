# -*- coding: utf-8 -*-
"""One process of C28: makes the calls of a job file and writes their results.  modeproc.py JOBS OUT LEVEL"""
import sys, os, pickle, json, io, random as R
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c_hist import *
from vlib import _np
from heur import algo, preload, ALL

def one(j):
    from opts import variants
    I = j["I"]; x = j["x"]; np = _np()
    R.seed(j["seed"]); np.random.seed(j["seed"] % 2**31)
    if j["kind"] == "reg":
        kind, v = call(algo(j["ab"])[3], list(I.pts), I.D.copy(), list(I.d), I.C, I.L, None, I.ewt, j["single"], j["mk"], cpu=120)
    elif j["kind"] == "opt":
        vs = [q for q in variants(R.Random(j["seed"]), I) if q[0] == j["fam"]]
        if not vs: return "absent"
        R.seed(j["seed"]); np.random.seed(j["seed"] % 2**31)
        kind, v = vs[0][2]()
    elif j["kind"] == "lib":
        world = [world_of(I, j["seed"])]
        kind, v = make_call(world, dict(f=j["f"], w=0, x=x))
    else:
        kind, v = file_call(j)
    return outcome_of(kind, v)[1] if kind != "ret" else repr(norm(v))

def file_call(j):
    """write, read back and look at a plan and an instance"""
    import tempfile, shutil
    from verypy import cvrp_io as io_, cvrp_ops as op, util as ut, routedata as rd
    I = j["I"]; W = tempfile.mkdtemp(); r = R.Random(j["seed"])
    def go():
        p = os.path.join(W, "x.vrp"); cs = list(range(1, I.n+1)); r.shuffle(cs)
        sol = [0]
        for c in cs: sol += [c]+([0] if r.random() < .4 else [])
        if sol[-1]: sol.append(0)
        io_.write_TSPLIB_file(p, I.D, d=list(I.d), C=I.C, L=I.L)
        q = io_.read_TSPLIB_CVRP(p)
        return [plain(q.distance_matrix), plain(q.customer_demands), plain(q.capacity_constraint), plain(io_.read_TSBLIB_additional_constraints(p)),
                plain(op.validate_solution_feasibility(sol, I.D, I.d, I.C, I.L, False)), plain(op.normalize_solution(sol)), float(ut.objf(sol, I.D)),
                float(op.recalculate_objective(sol, I.D)), plain(op.D2D_c(I.D, 3)), plain(ut.sol2routes(sol)),
                [plain(x) for x in rd.RouteData.from_solution(sol, I.D, I.d)], plain(io_.generate_CVRP(I.n, 100, 10, 3)[1])]
    try: return call(go, cpu=30)
    finally: shutil.rmtree(W)

def main():
    jobs = pickle.load(open(sys.argv[1], "rb")); out = sys.argv[2]; level = sys.argv[3]
    sys.stdout = open(os.devnull, "w")
    with quiet(): preload(ALL)
    if level != "none":
        from verypy.shared_cli import set_logger_level
        log = out+".log"
        set_logger_level(int(level), log if level == "3" else None)
        import logging
        for h in logging.getLogger("").handlers:     # the text of the log is not looked at
            if isinstance(h, logging.FileHandler): h.close(); h.stream = open(os.devnull, "w")
        logging.raiseExceptions = False
        if os.path.exists(log): os.remove(log)
    res = []
    for j in jobs:
        res.append(one(j))
    json.dump(res, open(out, "w"))
    sys.stderr.flush(); os._exit(0)
if __name__ == "__main__": main()
