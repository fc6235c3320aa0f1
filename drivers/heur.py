# -*- coding: utf-8 -*-
"""Calling the registered heuristics of the real code."""
import os, sys
from vlib import *

FAST = ["ps", "ps2o", "ss", "si", "pi", "sn", "pn", "ty", "swp", "gpl", "cmt", "rfcs"]
MID = ["ims", "mj", "wh", "gm", "gps"]
GUR = ["mbsa", "gap", "ptl"]
SLOW = ["lr3o"]
ALL = FAST + MID + GUR + SLOW
NO_K = {"sn", "pn", "ty", "lr3o"}     # documented: cannot minimise the number of vehicles

_algos = {}
def algo(ab):
    if ab not in _algos:
        with quiet():
            from verypy import get_algorithms
            for a in get_algorithms([ab]):
                _algos[a[0]] = a
    return _algos.get(ab)

def preload(names):
    have = []
    for ab in names:
        a = algo(ab)
        if a is not None: have.append(ab)
    return have

def may_refuse(ab, I, mk):
    return (mk and ab in NO_K) or (ab == "gap" and not I.C and not I.L)

def outcome(kind, v):
    if kind == "ret":
        if v is None: return "none", []
        p = plan(v)
        return ("plan", p) if p is not None else ("malformed", [])
    if kind == "hang": return "hang", []
    if kind == "int":
        if v.args and v.args[0] is not None:
            p = plan(v.args[0])
            return ("plan", p) if p is not None else ("malformed", [])
        return "int-none", []
    if v.startswith("NotImplementedError"): return "refused", []
    return "error", []

def drop_slow(ctx, recs, ab="ptl", share=.01):
    """The petal method bans one plan after the other and may go through very many that
    cost the same: a few runs over the time limit say nothing.  More than that does."""
    slow = [q for q in recs if q["alg"] == ab and q["out"] == "hang"]
    if not slow or len(slow) > max(3, share*sum(q["alg"] == ab for q in recs)): return recs
    ctx.notes["runs_cut_off"] = {ab: len(slow)}
    return [q for q in recs if not (q["alg"] == ab and q["out"] == "hang")]

def run_heur(ab, I, single, mk, cpu=60):
    """-> record fields of one call"""
    f = algo(ab)[3]
    if ab == "ptl": cpu = min(cpu, 30)
    kind, v = call(f, list(I.pts), I.D, I.d, I.C, I.L, None, I.ewt, single, mk, cpu=cpu)
    out, sol = outcome(kind, v)
    msg = v if kind == "exc" else ""
    if out == "error" and ab == "gap" and v.startswith("ValueError: If C and L have not been set"):
        out = "refused"
    lic = out == "error" and "size-limited license" in v
    if lic: out = "refused"
    return dict(alg=ab, single=bool(single), mk=bool(mk), out=out, sol=sol, mut="", msg=msg,
                mayrefuse=may_refuse(ab, I, mk) or lic or (ab == "gap" and out == "none" and I.L is not None))

# size up to which each heuristic is exercised (n customers)
def size_ok(ab, n, tier="quick"):
    big = {"ps": 200, "ps2o": 120, "ss": 120, "si": 120, "pi": 120, "sn": 120, "pn": 120, "ty": 60, "swp": 120,
           "gpl": 60, "cmt": 40, "rfcs": 40, "ims": 25, "mj": 25, "wh": 25, "gm": 16, "gps": 16,
           "mbsa": 14, "gap": 7, "ptl": 14, "lr3o": 11}
    return n <= big[ab]
