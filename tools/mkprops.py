#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
H = "verypy/classic_heuristics/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

ALLH = [H+f for f in ("parallel_savings.py","cawlip_savings.py","gaskell_savings.py","sequential_savings.py","paessens_savings.py","suppression_savings.py","cheapest_insertion.py","mole_jameson_insertion.py","matchingvrp.py","cmt_2phase.py","nearest_neighbor.py","tyagi_nearest_neighbor.py","sweep.py","wren_holliday_sweep.py","gillet_miller_sweep.py","rfcs.py","gapvrp.py","petalvrp.py","lr3opt.py")]

p("C01","Every heuristic returns a plan that serves each customer exactly once",
  "On every solvable instance (symmetric non-negative distances, every customer individually within the capacity and route-cost limits; demands and distances may be zero and need not obey the triangle inequality), each construction/improvement heuristic obtained from the algorithm registry finishes normally and returns a giant tour that starts and ends at the depot and visits every customer exactly once. The only refusals are the documented ones: an objective the heuristic declares unsupported, or, for the assignment heuristic, an instance with neither limit; that heuristic may also give up without a plan when a route-cost limit is set.",
  ["inputs","configurations"],"All instance sizes from one customer up, all demand/distance patterns (ties, coincident points, zero demands, non-metric matrices), limits present or absent, both objectives, single or full iteration, all registered heuristics whose solver dependencies are present.",
  "The tests run each heuristic on a few fixed or random medium instances; losing, duplicating or never finishing a customer depends on ties, coincident points, tiny instances and limit patterns that are not sampled.",
  ALLH+["verypy/__init__.py","verypy/util.py"],
  [("algorithm registry",  "verypy/__init__.py:get_algorithms"),("heuristic mains", H+"*_init"),("giant tour assembly","verypy/util.py:routes2sol")],
  ["return value of each registered heuristic callable"])
p("C02","No returned route carries more than the vehicle capacity",
  "When a capacity is given, the demand on each route of the solution returned by any heuristic is at most the capacity (loads exactly equal to the capacity are allowed). This holds whether or not a route-cost limit is also given and for either objective.",
  ["inputs","configurations"],"All solvable capacitated instances: integer and fractional demands, zero demands, demands above half the capacity, total demand an exact multiple of the capacity, every heuristic and option.",
  "Tests check capacity only on a handful of instances; violations arise from particular demand sequences meeting particular merges, insertions or exchanges.",
  ALLH+["verypy/local_search/inter_route_operators.py","verypy/local_search/solution_operators.py"],
  [("capacity tests in merges, insertions, sweeps and moves", H+"*"),("CAPACITY_EPSILON","verypy/config.py")],
  ["return value of each registered heuristic callable"])
p("C03","No returned route exceeds the maximum route cost",
  "When a maximum route cost is given, the cost of each route (all edges, leaving and returning to the depot) of the solution returned by any heuristic is at most that maximum, routes exactly at the limit being allowed. This holds with and without a capacity and for either objective.",
  ["inputs","configurations"],"All solvable route-cost-limited instances, including limits equal to the longest single-customer trip, rounded and fractional distances, every heuristic and option.",
  "Most fixtures have no route-cost limit; the limit only binds for particular geometry and is recomputed incrementally in many different places.",
  ALLH+["verypy/local_search/inter_route_operators.py"],
  [("route cost tests in merges, insertions, sweeps and moves", H+"*"),("COST_EPSILON","verypy/config.py")],
  ["return value of each registered heuristic callable"])
p("C04","Solving is a pure function of the instance and options",
  "Calling a heuristic leaves the caller's points, distance matrix and demands unchanged, and its result depends only on its arguments: repeating a call, at any later point of any sequence of other heuristic calls in the same process, gives the same solution. The stochastic initialisation option is not part of the registered heuristics.",
  ["histories","inputs"],"All interleavings of heuristic calls over several instances and options in one process.",
  "The tests call each heuristic once per instance in a fixed order, so leaked module state, mutable default arguments and mutated inputs are invisible to them.",
  ALLH+["verypy/tsp_solvers/tsp_solver_ropt.py","verypy/local_search/__init__.py"],
  [("no module-level mutable state","verypy/classic_heuristics/*, verypy/local_search/*"),("temporary masking of D in the Gillett-Miller path search", H+"gillet_miller_sweep.py")],
  ["return values and argument snapshots around each call"])
p("C05","An interrupted heuristic gives up a complete feasible plan or none",
  "If a keyboard interrupt arrives while a heuristic is looking up distances, the call ends by raising the interrupt; the interrupt either carries no solution or carries one that serves every customer exactly once and respects the capacity and route-cost limits. The caller's distance matrix and demands are as they were before the call.",
  ["crash_points","inputs"],"Every point at which a distance lookup can be interrupted in every registered heuristic, on all solvable instances (at least two customers).",
  "No test interrupts a heuristic; each interrupt point exposes a different intermediate state of merges, insertions and sweeps.",
  ALLH+["verypy/VeRyPy.py","verypy/shared_cli.py"],
  [("KeyboardInterrupt handlers re-raising with a salvaged solution", H+"*"),("greedy completion", H+"matchingvrp.py:_geedy_merge"),("forced feasibility", H+"lr3opt.py:_force_feasible")],
  ["exception raised by the heuristic callable and its payload"],
  [("partial routes","routes under construction plus unrouted customers when the interrupt arrives", H+"*")])
p("C06","Best-of searches return the best of what they tried",
  "A heuristic that tries several parameter settings, seeds or directions returns a solution that is not worse, in the requested objective (total cost, or number of routes first and cost second), than the solution of any single one of those settings run alone. The shared comparison rule itself orders solutions exactly that way.",
  ["inputs","configurations"],"All instances, both objectives, all alternative sets: savings parameter grids, strain criteria, suppression iterations, initialisation methods, seed nodes and directions, two-phase parameters, giant-tour splits.",
  "Tests compare single numbers on a few instances; a wrong comparison or a best-so-far update that forgets one field only shows when the settings disagree on cost and route count.",
  ["verypy/util.py",H+"gaskell_savings.py",H+"paessens_savings.py",H+"mole_jameson_insertion.py",H+"sweep.py",H+"gillet_miller_sweep.py",H+"wren_holliday_sweep.py",H+"suppression_savings.py",H+"nearest_neighbor.py"],
  [("is_better_sol","verypy/util.py"),("best_sol/best_f/best_K bookkeeping", H+"*")],
  ["return values of the multi-setting call and of each single-setting call"])
p("C07","Intra-route moves are exact, improving and exhaustive",
  "Each single-route operator (2-opt, 3-opt, relocate, exchange) either returns a route with the same end points and the same customers whose cost differs from the input route's by exactly the returned, strictly negative change, or reports that no move exists. It reports none only if no move of its neighbourhood improves the route; under best-accept the returned change equals the largest possible improvement, and with a given bound only moves better than the bound are returned.",
  ["inputs"],"All routes (any length, with ties and coincident nodes) and symmetric matrices, both strategies, with and without a bound.",
  "Tests compare with naive versions on a few routes; off-by-one segment ranges and wrong reconnections need particular lengths and positions.",
  ["verypy/local_search/intra_route_operators.py"],
  [("do_2opt_move, do_3opt_move, do_relocate_move, do_exchange_move","verypy/local_search/intra_route_operators.py")],
  ["operator return value"])
p("C08","Moves between routes keep plans feasible and are exhaustive",
  "Each two- or three-route exchange operator (2-opt*, one-point, two-point, chain) returns routes that serve exactly the customers of the input routes, respect the limits if the inputs do, and carry costs and (when a capacity is given) demands equal to what the routes really have, with the returned change equal to the true, strictly negative, cost change. It reports no move only if no feasible move of its neighbourhood improves; best-accept returns the largest feasible improvement.",
  ["inputs"],"All pairs/triples of feasible routes including empty ones, symmetric matrices, limits on or off, both strategies.",
  "Tests use a few hand-made two-route cases without checking returned bookkeeping, and feasibility margins rarely bind there.",
  ["verypy/local_search/inter_route_operators.py","verypy/routedata.py"],
  [("do_2optstar_move, do_1point_move, do_2point_move, do_chain_move","verypy/local_search/inter_route_operators.py"),("auxiliary prefix data","verypy/routedata.py:update_auxiliary_data")],
  ["operator return value"])
p("C09","Insertion and redistribution conserve customers and limits",
  "Inserting customers into a route, or dissolving a route into others, one customer after another, either places every one of them exactly once, within the limits, leaving the relative order of the customers already there, with exact route costs, demands and reported insertion cost; or reports failure and changes nothing. A single-customer best-accept insertion uses the cheapest feasible position and fails only if no feasible position exists (or none beats a given bound); under best-accept and without a bound, a route is dissolved whenever placing its customers in the given order (or, with recombination, in some order of customers or routes), each at its cheapest feasible position on the first route that can take it, succeeds.",
  ["inputs"],"All routes, customer lists, receiving-route lists, limits, strategies, bounds and recombination levels.",
  "Tests exercise a few redistributions; partial failures and bounds need specific capacities and cost orders.",
  ["verypy/local_search/inter_route_operators.py"],
  [("do_insert_move, do_redistribute_move","verypy/local_search/inter_route_operators.py")],
  ["operator return value"])
p("C10","The whole-solution 3-opt* move keeps plans feasible and improves them",
  "Applied to a feasible plan, the 3-opt* move returns either nothing or a plan serving every customer exactly once within the limits whose cost differs from the input's by exactly the returned, strictly negative change. It returns nothing only if no exchange of two or three edges anywhere in the plan (within a route or between routes) gives a feasible improvement; under best-accept no such exchange is better than the returned one.",
  ["inputs"],"All feasible plans (any number of routes, including a spare empty route), limits on/off, both strategies.",
  "One fixture with random plans checks validity; depot positions relative to the three cut edges give many cases that are rarely reached.",
  ["verypy/local_search/solution_operators.py"],
  [("do_3optstar_move and its move checker","verypy/local_search/solution_operators.py")],
  ["operator return value"])
p("C11","Local search only improves and stops at a true local optimum",
  "Run to completion on a feasible plan, the local search terminates with a feasible plan serving the same customers whose cost is never above the start's, and no supplied operator can improve any route combination of the result, an empty route of the start included as long as it is left; with an iteration limit it stops earlier but still never worsens. Each accepted step changes only the routes it reports, and this holds for every operator and iteration strategy.",
  ["inputs","histories","configurations"],"All starting plans, operator lists, operator strategies, iteration strategies and iteration limits.",
  "Tests assert final quality on few runs; skipping a route combination because of stale bookkeeping leaves plausible, still feasible results.",
  ["verypy/local_search/__init__.py","verypy/routedata.py"],
  [("at_lsop_optimal memo and its invalidation","verypy/local_search/__init__.py:do_local_search")],
  ["operator calls made by the search and its return value"],
  [("route_datas","current routes with cost and demand","verypy/local_search/__init__.py"),("at_lsop_optimal","route combinations known to have no improving move","verypy/local_search/__init__.py")])
p("C12","Parallel savings is greedy merging of routes by saving",
  "Starting from one route per customer, the parallel savings heuristic looks at all pairs of customers in order of non-increasing saving, the shorter link first among equal savings, and joins the two routes whenever the pair are ends of two different routes and the joined route fits the limits; unless the number of routes is minimised, everything stops at the first pair whose join would make the plan more expensive. Its result is one of the plans that this process can produce, remaining ties being the only freedom. The same holds for the other savings functions used with it (Gaskell's pi and lambda, Paessens' parametrised one, Holmes and Parker's with suppressed pairs). (Symmetric distances; triangle inequality where a route cost limit is set.)",
  ["inputs","configurations"],"All instances, savings functions, limits and both objectives.",
  "Feasible but wrongly merged plans pass every feasibility test and most recorded-quality tolerances.",
  [H+"parallel_savings.py",H+"gaskell_savings.py",H+"paessens_savings.py",H+"suppression_savings.py"],
  [("parallel_savings_init, savings functions", H+"parallel_savings.py")],
  ["return value"])
p("C13","Sequential savings extends one route at a time by best saving",
  "The sequential savings heuristic builds routes one after another: a route starts from the unrouted customer closest to the depot (or farthest, when so configured); each step joins to either end of the route the unrouted customer with the largest saving over that end (shorter link first among equal savings) that fits the limits; the route is closed when none fits or, unless the number of routes is minimised, when no fitting customer has a non-negative saving. Its result, as a set of routes up to direction, is one of the plans this process can produce.",
  ["inputs","configurations"],"All instances, limits, route initialisations and objectives.",
  "Feasible but wrongly ordered extensions pass feasibility tests.",
  [H+"sequential_savings.py"],[("sequential_savings_init",H+"sequential_savings.py")],["return value"])
p("C14","Insertion heuristics always make the cheapest feasible insertion",
  "The cheapest insertion heuristic, sequential or with several emerging routes that take turns, inserts at each turn the unrouted customer and place on that route with the best criterion (detour D[i,u]+D[u,j]-mu*D[i,j] minus lambda times the distance of u from the depot; among equals the smaller detour first) among the insertions that fit the limits and, unless the number of routes is minimised, cost no more than a route of their own; a route without such an insertion is finished and replaced by a new one seeded with the unrouted customer farthest from (or closest to, when so configured) the depot. The result is one of the plans this process can produce, ties being the only freedom. (Triangle inequality where a route cost limit is set.)",
  ["inputs","configurations"],"All instances, numbers of emerging routes, seed rules, limits and both objectives.",
  "A stale or missing candidate insertion still yields feasible plans of similar cost.",
  [H+"cheapest_insertion.py"],[("cheapest_insertion_init",H+"cheapest_insertion.py")],["return value"])
p("C15","Nearest-neighbour construction always takes the nearest unrouted customer",
  "The nearest-neighbour heuristic grows one or several emerging routes in turns: a route is seeded with the unrouted customer closest to the depot (or farthest, or the one with the nearest unrouted neighbour, as configured); at its turn a route takes the unrouted customer nearest to the customer it took last, at whichever end makes the route cheaper (only at its end when so configured); when that customer would break a limit the route is finished and its turn goes to a newly seeded route. The result is one of the plans this process can produce, ties being the only freedom.",
  ["inputs","configurations"],"All instances, numbers of emerging routes, seed rules and limits.",
  "Skipping a nearer customer still yields feasible plans.",
  [H+"nearest_neighbor.py"],[("nearest_neighbor_init",H+"nearest_neighbor.py")],["return value"])
p("C16","Sweep routes are consecutive in polar angle and maximal",
  "For each starting customer and direction, the sweep collects customers in polar-angle order around the depot into the current route until the next one would break a limit, then starts a new route; so, without per-route optimisation, each route is a run of consecutive customers in the circular angle order that could not have taken the following one.",
  ["inputs","configurations"],"All coordinate instances, starts, directions and limits.",
  "A sweep that skips, wraps wrongly or closes early still gives feasible plans.",
  [H+"sweep.py"],[("sweep_init, do_one_sweep",H+"sweep.py")],["return value"])
p("C17","Route-first cluster-second splits the giant tour optimally",
  "Given a giant tour, the splitting step returns the cheapest way to cut it into consecutive feasible routes (for the vehicle-minimising objective, fewest routes first and cheapest among those), and the heuristic's plan is such a split of its tour (with the routes possibly improved afterwards).",
  ["inputs","configurations"],"All giant tours, distance matrices and limits.",
  "Tests only look at final cost on a few instances where suboptimal splits go unnoticed.",
  [H+"rfcs.py"],[("route_first_cluster_second_init and its auxiliary graph",H+"rfcs.py")],["return value"])
p("C18","The feasibility report is exact on each of its three verdicts",
  "For any sequence of stops with at least one depot visit (including tours written from the middle of a route), the feasibility report says covering is satisfied iff every customer occurs exactly once, capacity iff no route's demand exceeds the capacity, and route cost iff no route's cost exceeds the limit; verdicts for absent limits are positive and independent of each other.",
  ["inputs"],"All stop sequences, demands, matrices and limit combinations.",
  "Every other test relies on this checker as its oracle, so an error in it hides other errors.",
  ["verypy/cvrp_ops.py"],[("validate_solution_feasibility","verypy/cvrp_ops.py")],["returned triple"])
p("C19","Cost, canonical form and encodings of a plan agree",
  "A plan's recomputed cost is the sum of its edges whichever encoding it is given in (giant tour or list of routes); normalising a plan preserves its set of routes up to direction, depends only on that set, is idempotent and leaves the cost unchanged on symmetric matrices; converting between giant tour and routes is lossless up to empty routes.",
  ["inputs"],"All plans: empty routes, repeated depots, routes with or without depot ends, any order or direction.",
  "Tests normalise only their own outputs.",
  ["verypy/cvrp_ops.py","verypy/util.py"],[("normalize_solution, recalculate_objective","verypy/cvrp_ops.py"),("sol2routes, routes2sol, without_empty_routes, objf, totald, sol2edgeset","verypy/util.py")],["return values"])
p("C20","Service time is charged exactly once per served customer",
  "After baking a service time into the distance matrix, the cost of every route equals its travel cost plus the service time for each customer on it, for integer and fractional matrices and for even, odd and fractional service times; the original matrix is unchanged and self-distances stay zero.",
  ["inputs"],"All matrices (integer or real), service times and routes.",
  "The fixtures use even integer service times only.",
  ["verypy/cvrp_ops.py","verypy/VeRyPy.py"],[("D2D_c","verypy/cvrp_ops.py")],["returned matrix, reported solution cost"])
p("C21","TSPLIB instances are read as written",
  "Reading a TSPLIB file yields the stated size, capacity and demands, and a symmetric distance matrix equal to the listed weights for each supported explicit layout however the numbers are broken over lines, or to the TSPLIB distance function of the coordinates; a depot other than the first node is moved to index 0 consistently in matrix, demands and coordinates. An explicit matrix with missing numbers, a second depot, and an unknown problem or distance type are rejected.",
  ["inputs"],"All sizes, symmetric explicit matrices in all layouts, line breaks, two-dimensional distance functions (Manhattan and maximum distance for integer coordinates, geographical distance on one meridian or the equator), depot positions and section orders (fields before sections, rows listed in node order).",
  "The tests read a few library files of three layouts, all with depot 1.",
  ["verypy/cvrp_io.py"],[("read_TSPLIB_CVRP cursor, calculate_D, depot permutation","verypy/cvrp_io.py")],["returned problem definition"],
  [("ij_section_pos","matrix cursor while reading weights","verypy/cvrp_io.py:read_TSPLIB_CVRP")])
p("C22","Side constraints and solution files survive a round trip",
  "Writing an instance and reading it back gives the same distances, demands, capacity and route limit; a plan written as a solution file is read back as the same plan with the same cost and its number of routes; the vehicle, route-limit and service-time fields and the per-customer service-time section are read with their stated values, and differing service times are rejected. The signed one-line export lists every customer once, marking exactly the first customer of each route.",
  ["inputs"],"All instances with integer demands and limits (a capacity is compared when one is given), plans with a cost of at most two decimals, solution files whose name does not state another number of routes, all field spellings with or without spaces, any section order.",
  "Tests read a few CMT files with one spelling and never write.",
  ["verypy/cvrp_io.py"],[("write_TSPLIB_file, read_TSBLIB_additional_constraints, read_OPT_CVRP, as_OPT_solution, as_VRPH_solution","verypy/cvrp_io.py")],["file contents and returned values"])
p("C23","The command line reports exactly what the solvers produced",
  "For every problem file and selected heuristic the command line prints exactly one result, whose cost, number of routes and feasibility are those of the solution the heuristic returned (after optional post-optimisation, which never makes it worse); a heuristic that fails or is unsupported yields an infeasible/infinite result and does not disturb the others; an interrupt reports what was salvaged and stops. Names select the documented heuristics case-insensitively, forbidden ones are never run, and each problem file found is solved once.",
  ["inputs","configurations","fault_sequences"],"All sequences of outcomes (solution, none, failure, interrupt) of heuristics over files, output modes, objectives, post-optimisation and file layouts.",
  "No test drives the command line.",
  ["verypy/VeRyPy.py","verypy/shared_cli.py","verypy/__init__.py"],[("main solve loop","verypy/VeRyPy.py"),("get_a_problem_file_list, read_and_solve_a_problem, print_solution_statistics","verypy/shared_cli.py"),("algo_name_aliases","verypy/__init__.py")],["standard output, return values"])
p("C24","The built-in TSP solver returns a good tour with its true cost",
  "For any set of nodes including the depot, the built-in TSP solver returns a closed tour visiting each given node exactly once, starting and ending at the depot, together with exactly that tour's cost; the tour is not worse than visiting the nodes in the given order and cannot be improved by a 2-opt move.",
  ["inputs"],"All node orders with at least one customer, symmetric matrices with ties.",
  "Only two or three fixed TSPs are compared by cost.",
  ["verypy/tsp_solvers/tsp_solver_ropt.py"],[("solve_tsp_ropt","verypy/tsp_solvers/tsp_solver_ropt.py")],["return value"])
p("C25","Route records carry the true cost, load and prefix sums",
  "A route record built from a plan has the cost, load and customer set of its route, its forward and backward cumulative costs and loads equal the true prefix and suffix sums, normalisation only reverses the route, and converting the records back gives the plan without its empty routes.",
  ["inputs"],"All plans, matrices and demand lists (or none).",
  "No test looks at the records directly.",
  ["verypy/routedata.py"],[("RouteData.from_solution, update_auxiliary_data, normalize, to_solution","verypy/routedata.py")],["record fields"])
p("C26","The ordered set keeps set contents and insertion order",
  "Under any sequence of additions, removals, bulk removals, indexing, iteration and length queries, the ordered set behaves as a set whose elements are indexed and iterated in order of first insertion since last removal; adding a present element changes nothing, and a failed removal changes nothing.",
  ["histories"],"All operation sequences.",
  "It is only used indirectly, in a fixed pattern of operations.",
  ["verypy/util.py"],[("OrderedDictSet","verypy/util.py")],["return values of every operation"],
  [("ods","the dictionary holding the members","verypy/util.py"),("keylist","cached index list","verypy/util.py")])
p("C27","Random instances are well formed and solvable",
  "A generated instance has the requested number of customers, the depot first with zero demand, every demand between one and the capacity, and a symmetric distance matrix equal to the rounded distances of its points; a regular instance has its customers evenly spaced on the circle of the given radius around the depot.",
  ["inputs"],"All sizes, capacities of at least one and demand parameters.",
  "The generator is not tested.",
  ["verypy/cvrp_io.py"],[("generate_CVRP","verypy/cvrp_io.py")],["returned problem definition"])
p("C28","Optimised mode and logging never change a result",
  "The same call on the same input with the same random seed returns the same value whether Python runs normally or with -O (documented as the way to drop the debug output), whatever logging level is set and wherever the log goes, and whatever the string hash seed; this holds for the heuristics and their options, local search, the tour solvers, reading, writing and checking of problems and plans, and for the solutions, costs and feasibility verdicts the command line prints. In particular a call that succeeds in one mode succeeds in all.",
  ["inputs","configurations"],"All instances and options, all combinations of interpreter optimisation, log level and hash seed.",
  "The tests run in one mode; statements under `if __debug__` and assertions do real work only on particular branches.",
  ALLH+["verypy/local_search/","verypy/shared_cli.py","verypy/verypy.py","verypy/cvrp_io.py","verypy/cvrp_ops.py"],
  [("debug-only statements","`if __debug__:` blocks throughout verypy/"),("log level","verypy/shared_cli.py:set_logger_level")],["return values in different processes","stdout of the command line"])
p("C29","Every documented option of a heuristic yields a complete feasible plan",
  "For every documented option of the heuristics' *_init functions (seed customers and route initialisation, savings functions and their parameters, number of emerging routes, sweep directions and starting points, association strategies, pluggable tour and local optimisers, multipliers, retries, relaxation and iteration counts) and their combinations, the call on a solvable instance ends normally with a plan that serves every customer exactly once from and to the depot within the capacity and route-cost limits. The assignment heuristic may give up where a route-cost limit is set; its options that need a limit or coordinates are only required to work where these are given.",
  ["inputs","configurations"],"All solvable instances with coordinates and all combinations of the documented option values.",
  "The tests and the registry use one option combination per heuristic; the others are reached only by library users.",
  ALLH,[("option handling",H+"*_init")],["returned tour"])
p("C30","Tour solvers answer with the program's tour for the chosen nodes",
  "For symmetric distances and any chosen set of nodes, the tour solvers backed by external programs (LKH, ACOTSP with and without ants, Gurobi, and the fast solver that picks among them) return a closed tour that visits each chosen node exactly once, starts at the depot when that is the first of the chosen nodes, and comes with its cost in the caller's distances. The external program is given the distances between the chosen nodes (real valued ones to the stated precision), its tour is the one returned in the caller's numbering, the caller's matrix is untouched and no temporary file stays behind; Gurobi's tour is a shortest one. Heuristics that find such a program installed still return complete plans within the limits. The tour solvers' own command line solves the problem in a file and prints a tour through all its nodes with its cost, for integer and for real distances.",
  ["inputs","configurations"],"All node subsets and orders, integer and real distances, all tours a program may print.",
  "The programs are not installed where the tests run, so the wrappers are never executed.",
  ["verypy/tsp_solvers/tsp_solver_lkh.py","verypy/tsp_solvers/tsp_solver_acotsp.py","verypy/tsp_solvers/tsp_solver_gurobi.py","verypy/tsp_solvers/tsp_solver_fast.py","verypy/cvrp_io.py","verypy/config.py"],
  [("problem file","verypy/cvrp_io.py:write_TSPLIB_file"),("wrappers","verypy/tsp_solvers/tsp_solver_*.py")],["problem file and output of a stand-in program","returned tour and cost","plans of the heuristics that use a program"])
p("C31","The matching heuristic merges the heaviest pair of a maximum weight matching",
  "The matching based savings heuristic starts from one route per customer. In every step it weighs each pair of routes by what serving their customers by one shortest tour saves (a limit-breaking pair by the penalty W), takes a maximum weight matching that pairs every route (all but one if their number is odd) and merges the pair of that matching that weighs most. It stops when that pair is not allowed or, unless vehicles are minimised, would make the plan dearer. Its final routes are shortest tours of their customers.",
  ["inputs","configurations"],"All small instances with exact tour costs, penalties and both objectives; ties may be broken any way.",
  "The tests compare a final cost on two instances; a wrong matching model, stale savings after a merge or a wrong stopping rule still give plausible plans.",
  [H+"matchingvrp.py"],[("matching model",H+"matchingvrp.py:_mmp_solve"),("merging",H+"matchingvrp.py:mbsa_init")],["returned tour"])
p("C32","The petal method leaves no cheaper selection of its petals",
  "Given its petals (the feasible runs of customers in sweep order, or any collection the caller supplies that can serve everybody), the petal method returns a feasible plan that is no dearer than the cheapest selection of petals that serves every customer exactly once; when vehicles are minimised it uses the fewest petals that can do so, and a given number of vehicles is respected whenever a selection of so few petals exists (loosened by as little as possible otherwise).",
  ["inputs","configurations"],"All small instances and petal collections, with relaxation of plans on and off.",
  "The tests check final costs on benchmark instances; a wrongly forbidden combination or a skipped petal set still gives a plausible plan.",
  [H+"petalvrp.py"],[("set covering",H+"petalvrp.py:_solve_set_covering"),("main loop",H+"petalvrp.py:petal_init")],["returned tour"])
p("C33","The assignment heuristic uses as few vehicles as the demands allow",
  "With a capacity limit only, the generalised assignment heuristic minimising vehicles uses exactly the smallest number of vehicles into which the demands can be packed; asked for K vehicles it uses at most K and gives up only when the demands cannot be packed into K; minimising cost its plan is never dearer than the one it finds for the fewest vehicles with the same settings.",
  ["inputs","configurations"],"All instances with planar customers, seed methods and numbers of vehicles.",
  "The tests look at costs on a few instances where the smallest K is feasible at once.",
  [H+"gapvrp.py"],[("K loop",H+"gapvrp.py:gap_init"),("assignment model",H+"gapvrp.py:_solve_gap")],["returned tour"])
p("C34","Heuristics that finish with a local search return plans it cannot improve",
  "The plan of a heuristic that ends in an improvement phase is a local optimum of that phase within the limits: no 2-opt move improves a route of the savings heuristic with 2-opt, no 2- or 3-opt move improves a route of the Tyagi, two-phase, route-first, Gillett-Miller, Paessens, matching and assignment heuristics, no 2-opt move and no move of a customer to another (or a new) route improves a plan of the Mole-Jameson heuristic, and no exchange of up to three edges anywhere improves a plan of the Lagrangian-relaxed 3-opt.",
  ["inputs","configurations"],"All instances, limits, single/fast modes and objectives.",
  "Tests compare costs; a search stopped one round early or run on a subset of the routes still returns a good plan.",
  [H+f for f in ("parallel_savings.py","tyagi_nearest_neighbor.py","cmt_2phase.py","rfcs.py","gillet_miller_sweep.py","paessens_savings.py","matchingvrp.py","gapvrp.py","mole_jameson_insertion.py","lr3opt.py")]+["verypy/local_search/__init__.py","verypy/tsp_solvers/tsp_solver_ropt.py"],
  [("final improvement","verypy/local_search/__init__.py:do_local_search"),("tour improvement","verypy/tsp_solvers/tsp_solver_ropt.py")],["returned tour"])
p("C35","The two-phase heuristic builds its routes as documented and returns the better phase",
  "Phase one opens a route with the unrouted customer the seed rule picks (first, farthest, closest, biggest) and offers it the other unrouted customers in the order of depot distance plus lambda times seed distance, adding whoever fits. Phase two starts the same seeds side by side; in turn a route (the one with most associated customers, or the next) is offered the unrouted customers whose best route among those still to come it is (the n-th best in the n-th round of repeated association), those who would regret losing it most first, adding whoever fits. The plan returned is that of one of the phases: phase two's only if it serves everyone, and the cheaper one if both do.",
  ["inputs","configurations"],"All instances, lambda and mu values, seed rules, association options and both objectives; ties may be broken any way.",
  "The tests compare final costs on a few instances; a customer associated with a wrong route or a wrong order still gives a feasible, plausible plan.",
  [H+"cmt_2phase.py"],[("phase one",H+"cmt_2phase.py:_phase_one"),("phase two",H+"cmt_2phase.py:_phase_two"),("choice of phase",H+"cmt_2phase.py:cmt_2phase_init")],["returned tour"])
p("C36","The perturbed savings heuristic suppresses its best link round by round and keeps the best plan",
  "The perturbed savings heuristic repeats the parallel savings heuristic for the given number of rounds (by default a seventh of the number of customers plus five, never more than there are pairs, at least one). In a round the pairs suppressed so far and the pairs that save nothing count as saving zero; after it the pair on top of its list is suppressed as well. The plan returned is the best of the rounds in the requested objective: cost, or number of routes first and cost second.",
  ["inputs","configurations"],"All instances, numbers of rounds and both objectives; equally good plans and equal pairs may be taken in any order.",
  "The tests compare final costs on a few benchmark instances; a list of savings that is not updated or a round too few still gives feasible and usually equally good plans.",
  [H+"suppression_savings.py",H+"parallel_savings.py"],[("savings with suppressed pairs",H+"suppression_savings.py:supression_savings_function"),("rounds",H+"suppression_savings.py:suppression_savings_init")],["returned tour"])
p("C37","A limit too large to matter changes nothing",
  "A capacity of at least the whole demand, or a route cost limit no route can reach, is the same as no such limit: a heuristic, the local search or the 3-opt* move run once without the limit and once with it gives the same kind of answer, the same number of routes and the same cost, whatever the other limit is. (Exempt: the capacity of the Tyagi and petal heuristics, whose rules use its amount; the route cost limit of the Mole-Jameson heuristic and both limits of Wren-Holliday, whose insert moves are documented to search for a place only under a limit; the assignment heuristic, which counts its seeds by the capacity and hands every limit to its solver.)",
  ["inputs","configurations","pairs of runs"],"All instances, all registered heuristics in both modes, local search operators and strategies, every combination of the other limit.",
  "No test runs the same instance with and without an idle limit; both plans are feasible, complete and plausible.",
  [H+"*.py","verypy/local_search/__init__.py","verypy/local_search/inter_route_operators.py","verypy/local_search/solution_operators.py"],
  [("improvement phase of the sweep",H+"gillet_miller_sweep.py:_improvement_callback"),("local search","verypy/local_search/__init__.py:do_local_search")],["returned tour"])
p("C38","The assignment heuristic gives the customers to its seeds at least total detour",
  "For a given number of vehicles the generalised assignment heuristic returns a plan whose routes belong to different seeds, within the capacity, such that no other assignment of the customers to the seeds within the capacity has a smaller sum of detours (over the customer on the way between depot and seed); it gives up only when no assignment fits. Trying several seed configurations, the plan is such an assignment for one of them and no worse than the plan of the first.",
  ["inputs","configurations"],"All instances with planar customers, k-means centres or customers above half a vehicle as seeds, every edge weight type.",
  "Any assignment within the capacity gives a feasible plan; the tests look at final costs on a few instances.",
  [H+"gapvrp.py"],[("delivery cost approximation",H+"gapvrp.py:_solve_gap"),("seed distances",H+"gapvrp.py:gap_init"),("seeds",H+"gapvrp.py:_kmeans_seed_points"),("seeds",H+"gapvrp.py:_large_demand_seed_points")],["returned tour"])
p("C39","Units of measurement, number types and the origin of the coordinates do not matter",
  "An instance may be given in any unit: if all distances, the route cost limit and the coordinates are multiplied by one factor and all demands and the capacity by another, or the same numbers are given as floats instead of integers, or all coordinates are shifted by the same vector, then a heuristic, the local search, the 3-opt* move or the r-opt tour solver gives the same kind of answer, the same number of routes and the same cost (in its unit). (Exempt: the units of the Tyagi and LR3OPT heuristics, whose penalties add loads to lengths; the methods that leave ties to the MIP solver; factors so small that the numbers come near the tolerance of 1e-10.)",
  ["inputs","configurations","pairs of runs"],"All instances, the registered heuristics that solve no MIP in both modes, local search operators and strategies, factors that are powers of two (so that both runs round alike), whole shifts.",
  "The tests use instances in one unit, mostly integers, and never compare two forms of one instance; a rounded saving or a rule that compares with an absolute amount gives feasible and plausible plans.",
  [H+"*.py","verypy/local_search/*.py","verypy/tsp_solvers/tsp_solver_ropt.py"],
  [("savings",H+"gaskell_savings.py:gaskell_pi_savings_function"),("capacity test",H+"sequential_savings.py:sequential_savings_init"),("average radius",H+"gillet_miller_sweep.py:_pack_datastructures_callback"),("least dense direction",H+"wren_holliday_sweep.py:wren_holliday_init")],["returned tour"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P), "properties")
