# -*- coding: utf-8 -*-
"""Documented options of the heuristics."""
from heur import *

def variants(r, I):
    """[(family, text of the options, thunk, may give up)] one random option combination per family"""
    from verypy.classic_heuristics import (parallel_savings as PS, sequential_savings as SS, gaskell_savings as GA, paessens_savings as PA,
        suppression_savings as SU, cheapest_insertion as CI, mole_jameson_insertion as MJ, nearest_neighbor as NN, tyagi_nearest_neighbor as TY,
        sweep as SW, gillet_miller_sweep as GM, wren_holliday_sweep as WH, cmt_2phase as CM, rfcs as RF, lr3opt as LR)
    import verypy.tsp_solvers.tsp_solver_ropt as RO
    out = []
    D, d, C, L = I.D, I.d, I.C, I.L; P = list(I.pts); n = I.n; ch = r.choice
    def add(fam, f, *a, refuse=False, **k):
        txt = ", ".join("%s=%s" % (x, getattr(y, "__name__", y)) for x, y in sorted(k.items()))
        out.append((fam, txt, lambda: call(f, *a, cpu=60, **k), refuse))
    mk = dict(minimize_K=ch([False, True]))
    add("cmt", CM.cmt_2phase_init, D, d, C, L, lambda_multiplier=ch([0.0, 0.5, 1.0, 2.0, 3.0]), mu_multiplier=ch([0.0, 0.5, 1.0, 2.0]),
        phase1_seed_selection_method=ch(["farthest", "closest", "biggest", "first"]), phase2_choose_most_associated_route=ch([True, False]),
        phase2_repeated_association_with_n_routes=ch([None, 1, 2, 3, "K"]), number_of_randomized_retries=ch([None, None, 1, 3]), **mk)
    add("ci", CI.cheapest_insertion_init, D, d, C, L, emerging_route_count=ch([1, 2, 3, 5]), initialize_routes_with=ch(["farthest", "closest", "strain"]), **mk)
    add("mj", MJ.mole_jameson_insertion_init, D, d, C, L, strain_criterion=ch(["proximity_ranking", "min_strain", "clarke_wright", "gaskell", "augumented_min_strain", "all"]), **mk)
    add("nn", NN.nearest_neighbor_init, D, d, C, L, emerging_route_count=ch([1, 2, 3, 6]), initialize_routes_with=ch(["farthest", "closest", "nearest"]), add_only_to_end=ch([True, False]))
    add("tyagi", TY.tyagi_init, D, d, C, L, only_large_and_close_customer_single_routes=ch([True, False]), try_interchange_with_all_group_customers=ch([True, False]),
        select_grouping=ch(["max_demand", "balanced", "min_penalty"]))
    add("gpl", GA.gaskell_savings_init, D, d, C, L, savings_method=ch(["both", "lambda", "pi"]), **mk)
    add("gps", PA.paessens_savings_init, D, d, C, L, strategy=ch(["M4", [(1.0, 0.0)], [(ch([.5, 1.0, 2.0]), ch([0.0, .5, 1.0])) for _ in range(3)]]), do_3opt=ch([True, False]), **mk)
    add("ims", SU.suppression_savings_init, D, d, C, L, Lprime=1 if n < 2 else ch(["auto" if n > 4 else 1, 1, 2, min(5, n*(n-1)//2)]), **mk)
    add("ss", SS.sequential_savings_init, D, d, C, L, initialize_routes_with=ch(["closest", "farthest"]), **mk)
    ini = [getattr(LR, x) for x in ("_init_with_tsp", "_init_with_random") if hasattr(LR, x)]
    if n <= 10:
        add("lr3o", LR.lr3opt_init, D, d, C, L, initial_lambda1_C=ch([None, 0.05, 1.0]), initial_lambda1_L=ch([None, 0.05, 1.0]),
            postoptimize_with_3optstar=ch([True, False]), max_concecutive_lamba_incs=ch([None, 3]),
            **(dict(initialization_algorithm=ch(ini)) if ini else {}))
    add("rfcs", RF.route_first_cluster_second_init, D, d, C, L, tsp_gen_algo=ch([RO.solve_tsp_ropt, getattr(RF, "solve_tsp_intial", RO.solve_tsp_ropt)]),
        partition_tsp_opt_algo=ch([RO.solve_tsp_2opt, RO.solve_tsp_3opt]), route_tsp_opt_algo=ch([RO.solve_tsp_2opt, RO.solve_tsp_3opt]), **mk)
    sd = ch([SW.BEST_ALTERNATIVE, r.randrange(n), [r.randrange(n) for _ in range(3)]])
    add("swp", SW.sweep_init, P, D, d, C, L, direction=ch(["both", "cw", "ccw"]), seed_node=sd, routing_algo=ch([None, RO.solve_tsp_ropt]), **mk)
    add("gm", GM.gillet_miller_init, P, D, d, C, L, direction=ch(["both", "cw", "ccw"]), seed_node=sd, **mk)
    add("wh", WH.wren_holliday_init, P, D, d, C, L, direction=ch(["both", "cw", "ccw"]), seed_node=ch([WH.BEST_OF_FOUR, WH.LEAST_DENSE, SW.BEST_ALTERNATIVE, r.randrange(n)]), full_convergence=ch([True, False]), **mk)
    try:
        from verypy.classic_heuristics import gapvrp as GP, petalvrp as PT, matchingvrp as MB
    except ImportError: return out
    # seeds at the ends of thoroughfares are documented as possibly too few; demand based seeds need a capacity, and
    # without any limit the number of routes is the caller's to give
    if n <= 7 and (C or L): add("gap", GP.gap_init, P, D, d, C, L, find_optimal_seeds=ch([True, False]), seed_method=ch(["cones", "kmeans"]+(["large_demands"] if C else [])),
        seed_edge_weight_type=ch(["EUC_2D", "MAN_2D", "CEIL_2D"]), use_adaptive_L_constraint_weights=ch([True, False]), increase_K_on_failure=ch([True, False]), refuse=bool(L), **mk)
    if n <= 12:
        add("ptl", PT.petal_init, P, D, d, C, L, relaxe_SCP_solutions=ch([True, False]), required_iterations=ch([None, None, 1, 3]), min_iterations=ch([None, None, 1, 3]),
            restricted_route_ratio=ch([.5, .75, .9]), allow_infeasible=ch([True, False]), can_discard_multiple_customers=ch(["auto", True, False, 2]), **mk)
        add("mbsa", MB.mbsa_init, D, d, C, L, W=ch([0.0, -1000.0]), solve_tsp=ch([MB.default_solve_tsp, RO.solve_tsp_ropt, RF.solve_tsp_2opt]),  **mk)
    return out
