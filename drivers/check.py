#!/usr/bin/env python
"""Entry point: check.py <property id>   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
try:
    if prop in ("C01", "C02", "C03"):
        import c_plans
        c_plans.main(prop, {"C01": "cover", "C02": "capacity", "C03": "cost"}[prop])
    elif prop in ("C07", "C08", "C09", "C10"):
        import c_moves
        c_moves.main(prop)
    elif prop == "C11":
        import c_search
        c_search.main(prop)
    elif prop in ("C18", "C19", "C20", "C24", "C25"):
        import c_data
        c_data.main(prop)
    elif prop in ("C26", "C27"):
        import c_util
        c_util.main(prop)
    elif prop in ("C12", "C13", "C14", "C15"):
        import c_build
        c_build.main(prop)
    elif prop in ("C04", "C05"):
        import c_hist
        c_hist.main(prop)
    elif prop == "C06":
        import c_best
        c_best.main(prop)
    elif prop in ("C16", "C17"):
        import c_route
        c_route.main(prop)
    elif prop == "C23":
        import c_cli
        c_cli.main(prop)
    elif prop in ("C21", "C22"):
        import c_io
        c_io.main(prop)
    elif prop == "C28":
        import c_modes
        c_modes.main(prop)
    elif prop == "C29":
        import c_opts
        c_opts.main(prop)
    elif prop == "C30":
        import c_tours
        c_tours.main(prop)
    elif prop in ("C31", "C32", "C33", "C34"):
        import c_exact
        c_exact.main(prop)
    elif prop == "C35":
        import c_twophase
        c_twophase.main(prop)
    elif prop == "C36":
        import c_suppress
        c_suppress.main(prop)
    elif prop == "C37":
        import c_idle
        c_idle.main(prop)
    elif prop == "C38":
        import c_gap
        c_gap.main(prop)
    elif prop == "C39":
        import c_units
        c_units.main(prop)
    else:
        raise SystemExit("unknown property "+prop)
except SystemExit: raise
except BaseException:
    traceback.print_exc(); print("CHECK ERROR"); sys.exit(2)
