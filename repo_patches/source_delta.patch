From e899bd268f672bade6c9b86f143d27e9488d28ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 01/67] fix: petalvrp could not be imported without the
 external TSP solver (stderr not imported)

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..ab90bfe 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -16,6 +16,7 @@ used), and numpy and scipy for reading and preparing the problem instance."""
 from __future__ import print_function
 from __future__ import division
 from builtins import range
+from sys import stderr
 
 from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
-- 
2.43.0


From 5333e9cc87fe44e2038f58ce05df7255402a6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 02/67] fix: nearest neighbor heuristics dropped customers that
 share their location with another node

---
 verypy/classic_heuristics/nearest_neighbor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..3b1068a 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -164,8 +164,11 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
+        others = [(j,D_ij) for j,D_ij in enumerate(D[i][:]) if j!=i]
+        # keep the reference to self first, even if there are other nodes at
+        #  the distance of 0 (the sorting alone does not guarantee that)
+        node_nearest_neighbors[i] = _PeekQueue( [(i,D[i][i])]+
+                                                sorted(others, key=itemgetter(1)) )
         node_nearest_neighbors[i].popleft() # pop reference to self
         
     # bookkeeping on the nodes that we have already served
-- 
2.43.0


From d1044c3b5840f90c36b44fd926f7d851302211b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 03/67] fix: Wren and Holliday improvement could cycle forever
 between the same solutions

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..749945f 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        visited_situations = set()
         changed = False
         
         try:
@@ -721,6 +722,13 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # "DELETE" may worsen the solution, thus the operations can end
+                #  up to cycle between same solutions. Do not go around again.
+                situation = (deleted, tuple(tuple(rd.route) for rd in routes))
+                if situation in visited_situations:
+                    solution_changed_between_iterations = False
+                visited_situations.add(situation)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From f28931c25e76efe0e6603109ea8e50b12cbd4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 04/67] fix: Wren and Holliday with a fixed sweep start failed
 on single customer instances

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 749945f..9ebedaa 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -569,7 +569,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             nodes = list(range(N-1))
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
-            sweeps.append( [seed_node, cur_dir] )
+            sweeps.append( [seed_node%(N-1), cur_dir] )
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From 498543bca5f1dfd783d1104d30d905a38a58794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 05/67] fix: savings and insertion heuristics swallowed
 interrupts that carry no solution

---
 verypy/classic_heuristics/gaskell_savings.py        | 2 +-
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 verypy/classic_heuristics/paessens_savings.py       | 2 +-
 verypy/classic_heuristics/suppression_savings.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..11fcedb 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -97,9 +97,9 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             sol = parallel_savings_init(D,d,C,L,minimize_K,sav_f)
         except KeyboardInterrupt as e:  #or SIGINT
             # lambda or pi was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..a5fbe6f 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -268,9 +268,9 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             
         except KeyboardInterrupt as e: #or SIGINT
             # some of the strain function insertion runs was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..439efde 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -115,9 +115,9 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             sol = without_empty_routes(sol)
         except KeyboardInterrupt as e: # or SIGINT
             # some parameter combination was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..febe2db 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -135,9 +135,9 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
         except KeyboardInterrupt as e: # or SIGINT
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From 7edc6f604debd84fed71a9d8133af0df5545ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 06/67] fix: order of equally good insertions depended on
 memory addresses

---
 verypy/classic_heuristics/cheapest_insertion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..9e878f7 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -18,6 +18,7 @@ from builtins import range
 
 from collections import namedtuple
 from heapq import heappush, heappop
+from itertools import count
 from logging import log, DEBUG, WARNING
 
 from verypy.util import objf, routes2sol
@@ -93,6 +94,7 @@ def _initialize_new_route(seed_customers, unrouted, D, d):
     return _EmergingRouteData(chosen, D, d)
 
 
+_insertion_counter = count()
 Insertion = namedtuple('Insertion', ['customer', 'after_node', 'before_node',
                                      'cost_delta', 'demand_delta'])
 def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
@@ -123,7 +125,8 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        # the running number makes the order of equally good insertions well defined
+        heappush( rd.potential_insertions, (sorting_key, next(_insertion_counter), insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From 7bcc870b3aaa1c1d20bd892f478440bfac97f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 07/67] fix: interrupted insertion heuristics could give a
 solution with duplicated or infeasibly inserted customers

---
 verypy/classic_heuristics/cheapest_insertion.py  |  7 +++++--
 .../classic_heuristics/mole_jameson_insertion.py | 16 ++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 9e878f7..c335628 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -405,9 +405,12 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
+        # the route that was being replaced with a new one may be in both lists
+        emerging_routes = [rd for rd in route_datas if rd not in complete_routes]
+        interrupted_sol = [0]+_EmergingRouteData.export_solution(emerging_routes)\
                           +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
+        # a customer may be already removed from unrouted but not yet on a route
+        interrupted_sol.extend( routes2sol([n] for n in range(1,len(D))
                                            if n not in interrupted_sol)[1:] )
         raise KeyboardInterrupt(interrupted_sol)
                               
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index a5fbe6f..85a8cbf 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -52,15 +52,20 @@ __status__ = "Development"
 
 def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
     
-    inserted = rd.route.insert(insertion.customer, insertion.before_node)   
-    #print("inserting", insertion, "resulting to", list(rd.route))
-
     ## keep the route 2-optimal
     # unfortunately we cannot do local_search.py do_2opt_move on the reoute,
     #  because it is an dllist. However, as the route is kept 2-optimal, it 
     #  is probable that not all search attempts lead to updating the route,
     #  so convert and udpate only as needed.
-    route_2opt_improved = list(rd.route)
+    # Note: the customer is inserted to rd.route only after it is known that the
+    #  insertion is going to be accepted.
+    route_2opt_improved = []
+    route_node = rd.route.first
+    while route_node:
+        if route_node==insertion.before_node:
+            route_2opt_improved.append(insertion.customer)
+        route_2opt_improved.append(route_node.value)
+        route_node = route_node.next
     total_delta = insertion.cost_delta
     applied_2opt_moves = False
     while True:
@@ -81,12 +86,10 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
             if __debug__:
                 log(DEBUG-2,("Rejecting insertion of n%d "%insertion.customer)+
                             ("as it is expected make solution worse."))
-            rd.route.remove(inserted) # reverse the change
             return False, None
     
     if L and rd.cost+total_delta-S_EPS > L:
         # The L constraint cannot be satisfied, even with 2-opt
-        rd.route.remove(inserted) # reverse the change
         return False, None
     
     rd.cost += total_delta
@@ -122,6 +125,7 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
         return True, new_edges
     
     else:
+        inserted = rd.route.insert(insertion.customer, insertion.before_node)   
         new_edges = [ (insertion.after_node, inserted), (inserted, insertion.before_node) ]
         return True, new_edges
 
-- 
2.43.0


From 10a64613a1d737c1a6753f42b688ffe8e90bf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 08/67] fix: Holmes and Parker heuristic gave no solution for
 single customer instances

---
 verypy/classic_heuristics/suppression_savings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index febe2db..e0d0ced 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -77,6 +77,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
+    if not savings_cache:
+        return savings_cache # nothing to merge, and nothing to suppress
+    
     first_savings = savings_cache[0]
     suppress = (first_savings[2], first_savings[3])
     if __debug__:
@@ -112,7 +115,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # run at least once, even if there is nothing to suppress (1 customer)
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From a2a799569c9654542eba5c4e465e8bb7de4b6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:10 +0000
Subject: [PATCH 09/67] fix: redistribute move could insert a customer on
 several routes

---
 verypy/local_search/inter_route_operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..0911614 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -559,9 +559,9 @@ def do_redistribute_move(redisributed_route_data,
                     continue
                 
                 #print("REMOVEME:", "succesfully inserted %d to create %s"%(to_insert, new_rd2.route))
-                ansatz_route_data[rd2_ar_idx] = new_rd2
-                total_delta+=delta
-                if total_delta+S_EPS<best_delta:
+                if total_delta+delta+S_EPS<best_delta:
+                    ansatz_route_data[rd2_ar_idx] = new_rd2
+                    total_delta+=delta
                     node_succesfully_inserted = True
                     break
                 else:
-- 
2.43.0


From 80126560fa12e43e3bbf0f27c4df420490631e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:10 +0000
Subject: [PATCH 10/67] fix: matching based savings failed when all customers
 fit to one route and did not terminate when no merge improves

---
 verypy/classic_heuristics/matchingvrp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..fc3a1f6 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,9 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # all customers are on one route, nothing to merge
+            
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
@@ -308,7 +311,7 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
+                break    # do not allow merges that would make the solution worse
                          # (even if it would mean fewer routes)
     
             if __debug__:
-- 
2.43.0


From ce5b0d6695d343295e323e67ab60dc2910ab7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 11/67] fix: interrupted matching based savings failed if the
 single customer routes were not yet evaluated

---
 verypy/classic_heuristics/matchingvrp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index fc3a1f6..a335a11 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -154,6 +154,12 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     """
     savings.sort(reverse=True)
     
+    # the interrupt may come before the single customer routes are in the cache
+    for nodes in route_sets:
+        if nodes not in tsp_cache:
+            single_route = [0]+[n for n in nodes if n!=0]+[0]
+            tsp_cache[nodes] = (single_route, objf(single_route, D))
+            
     try:    
         
         # Do a first pass where the routes in the tsp_cache are used
@@ -172,7 +178,7 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_ij = nodes_i.union(nodes_j)
             
             if nodes_ij not in tsp_cache:
-                greedy_routing = [0]+list(nodes_ij)+[0]
+                greedy_routing = [0]+[n for n in nodes_ij if n!=0]+[0]
                 greedy_f = objf(greedy_routing, D)
                 if not L or greedy_f-S_EPS<L:
                     # remember for the next stage
-- 
2.43.0


From d05336bfa0e9866f4a54ccbbd8a4f9cf7fb7b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:45 +0000
Subject: [PATCH 12/67] fix: interrupting nearest neighbor after the last
 customer was routed failed

---
 verypy/classic_heuristics/nearest_neighbor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 3b1068a..b48e75e 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -320,7 +320,9 @@ def nearest_neighbor_init(D, d, C, L=None,
             if sol:
                 unroutedr = [[n] for n in range(N)
                              if (n not in sol)]
-                if sol and len(sol)>1:
+                if not unroutedr:
+                    interrupted_sol = sol
+                elif sol and len(sol)>1:
                     interrupted_sol = sol[:-1]+routes2sol( unroutedr )
                 else:
                     interrupted_sol = routes2sol( unroutedr )
-- 
2.43.0


From 391008724067c19e7d5512125848348a19f90fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:45 +0000
Subject: [PATCH 13/67] fix: Tyagi heuristic failed on single customer
 instances

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..c4f4c64 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -306,6 +306,8 @@ def tyagi_init(D, d, C, L=None,
                                emerging_route_count=1,
                                forbidden_nodes=[single_route_candidate],
                                route_improvement_callback=interchange_variant)
+                if cndt_sol is None:
+                    continue # there are no other customers
                                
                 cndt_K = cndt_sol.count(0)-1+1 #the single_route_candidate_node
                 if cndt_K>best_K:
-- 
2.43.0


From ddf2fb3666be4acf425d46944431f20ce293a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 14/67] fix: redistribute move abandons an insertion order that
 is no longer better

---
 verypy/local_search/inter_route_operators.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 0911614..1c23054 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -559,13 +559,11 @@ def do_redistribute_move(redisributed_route_data,
                     continue
                 
                 #print("REMOVEME:", "succesfully inserted %d to create %s"%(to_insert, new_rd2.route))
-                if total_delta+delta+S_EPS<best_delta:
-                    ansatz_route_data[rd2_ar_idx] = new_rd2
-                    total_delta+=delta
+                ansatz_route_data[rd2_ar_idx] = new_rd2
+                total_delta+=delta
+                if total_delta+S_EPS<best_delta:
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From 691c5b43a18f50fe75bd2fd8e4592a2fe67d348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 15/67] fix: 2-opt* returned the cost and demand of the first
 route for both routes

---
 verypy/local_search/inter_route_operators.py | 34 +++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 1c23054..9498a4d 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -123,17 +123,18 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     r2_new_demand = route1_data.rwd_d[i+1]+route2_data.rwd_d[j+1]
                     if r1_new_demand-C_EPS>C or r2_new_demand-C_EPS>C:
                         constraint_violated = True
-                if not constraint_violated and L and (    
-                  route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j]-S_EPS>L or
-                  route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1]-S_EPS>L):
+                r1_new_cost = route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j]
+                r2_new_cost = route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1]
+                if not constraint_violated and L and (
+                  r1_new_cost-S_EPS>L or r2_new_cost-S_EPS>L):
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -158,17 +159,18 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     r2_new_demand = route1_data.rwd_d[i+1]+route2_data.fwd_d[j]
                     if r1_new_demand-C_EPS>C or r2_new_demand-C_EPS>C:
                         constraint_violated = True
+                r1_new_cost = route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1]
+                r2_new_cost = route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j]
                 if not constraint_violated and L and (
-                  route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1]-S_EPS>L or
-                  route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j]-S_EPS>L):
+                  r1_new_cost-S_EPS>L or r2_new_cost-S_EPS>L):
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +182,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From ff8c96ff1d004182d1a806bd9f7c6c29c1ef46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:23 +0000
Subject: [PATCH 16/67] fix: moving a customer away could make a route exceed
 the route cost limit without triangle inequality

---
 verypy/local_search/inter_route_operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 9498a4d..19cb38e 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -252,6 +252,10 @@ def do_1point_move(route1_data, route2_data, D, d=None,
                       -D[remove_after,to_move]\
                       -D[to_move,remove_before]
         
+        # removing can be costly if D does not satisfy triangle inequality
+        if L and remove_delta>0 and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
@@ -620,6 +624,10 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
         
+        # removing can be costly if D does not satisfy triangle inequality
+        if L and remove_delta>0 and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         for j in range(1,len(route2)-1):
             
             replace_after = route2[j-1]
-- 
2.43.0


From 8e85dd521dd42d86a30de24dc005b36c398e79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 17/67] fix: interrupted Christofides, Mingozzi and Toth
 heuristic lost customers of the route being built

---
 verypy/classic_heuristics/cmt_2phase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..aaff375 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -179,7 +179,9 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
+        # the customers of the route being built are not on sol nor unrouted
+        interrupted_sol = sol+(routes2sol([[n] for n in range(1,N)
+                                           if n not in sol]) or [0])
         raise KeyboardInterrupt(interrupted_sol)
         
     sol+=[0]
@@ -397,8 +399,9 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
         rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
-                                                if n not in rs_sol)
+        # the customers inserted to the route being built are not recorded yet
+        interrupted_sol = rs_sol[:-1]+(routes2sol([[n] for n in range(1,N)
+                                                   if n not in rs_sol]) or [0])
         raise KeyboardInterrupt(interrupted_sol)
     
     ## Step 4: Redo step 1 or construct the solution and exit 
-- 
2.43.0


From ac32a062df3b5d544f7d107968c639de13f026c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 18/67] fix: interrupting Gillett and Miller heuristic left the
 distance matrix modified

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..2b10673 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -50,10 +50,12 @@ def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
     old_path_end_distance = D[from_node, to_node]
     D[from_node, to_node] = 0.0
     D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    try:
+        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
+    finally:
+        # restore original weights (even if the routing is interrupted)
+        D[from_node, to_node] = old_path_end_distance
+        D[to_node, from_node] = old_path_end_distance
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From 80dac10d2cbf4d809f9825d61000ee735a9a4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 19/67] fix: interrupted route-first-cluster-second could give
 an infeasible solution or fail

---
 verypy/classic_heuristics/rfcs.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..2ee6f4e 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -33,6 +33,8 @@ except ImportError:
 # Always use built-in TSP solver to guarantee 2 and 3-optimality of single routes.
 from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt
 
+from verypy.util import routes2sol
+
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -61,7 +63,6 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     # these are the dist and next tables of Floyd-Warshall algorithm
     sequence_D = np.full((N,N), np.inf)
     next_split = np.zeros((N,N), dtype='int')
-    interrupted = False
     
     try:
         ## Build the feasible sequences of nodes on the giant tour
@@ -110,7 +111,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx==gtl:
                 break
     except KeyboardInterrupt:
-        interrupted = True
+        # the shortcut matrix is incomplete, serve each customer individually
+        raise KeyboardInterrupt(routes2sol([[n] for n in giant_tour[:gtl]]))
         
     # Solve using Floyd's algorithm
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
@@ -145,14 +147,10 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            route, _ = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
-        if not interrupted:
-            route, route_cost = route_tsp_opt_algo(D, route )
+        route, route_cost = route_tsp_opt_algo(D, route )
         
         # record the route
         sol.extend(route[1:])
@@ -166,12 +164,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             break
     
     if __debug__: 
-        if not interrupted:
-            log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
-                       (str(sol), sol_K, sol_f))
-    
-    if interrupted:
-        raise KeyboardInterrupt(sol)
+        log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
+                   (str(sol), sol_K, sol_f))
     
     return sol
 
-- 
2.43.0


From 2c8a09077bc3cfb5d5172731d64d45c830a69756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 20/67] fix: petal heuristic did not terminate when all the
 solutions were exhausted while minimizing the number of routes

---
 verypy/classic_heuristics/petalvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index ab90bfe..3a14572 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,8 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N-1:
+                    # more routes than there are customers cannot help
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-- 
2.43.0


From 79a67bc46adcbf4c7434216a003f84b1d5095d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 21/67] fix: petal heuristic with a single iteration could
 return an infeasible solution

---
 verypy/classic_heuristics/petalvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 3a14572..24739eb 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -936,8 +936,9 @@ def petal_init(points, D, d, C, L, K=None,
                 # Finally, abort if no improvements can be found.
                 break
                 
+            # (an infeasible solution is not one of the required valid solutions)
             if required_iterations and iteration_counter>=required_iterations and\
-                not (min_iterations and iteration_counter<min_iterations):        
+                best_sol_feasible and not (min_iterations and iteration_counter<min_iterations):        
                 break # main iteration loop
         
             ## IMPROVEMENT PHASE 
-- 
2.43.0


From 09dfd81192ec5e038809d65ac79248753cd2ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 22/67] fix: assignment heuristic failed when the estimated
 number of routes was zero

---
 verypy/classic_heuristics/gapvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..6c513c5 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -717,14 +717,14 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     else:
         # start from the smallest K possible
         if C:
-            startK = int(ceil(sum(d)/C))
+            startK = max(1, int(ceil(sum(d)/C)))
         elif L:
             # find a lower bound by checking how many visits from the TSP
             #  tour need to add to have any chance of making this L feasible.
             _,tsp_f = solve_tsp(D, list(range(1,N)))
             shortest_depot_edges = list(D[0,1:])
             shortest_depot_edges.sort()
-            startK = int(ceil(tsp_f/L))
+            startK = max(1, int(ceil(tsp_f/L)))
             while True:
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
-- 
2.43.0


From 24e755c0cbbdc861ad4c5c4b04d6cc8777b7b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 23/67] fix: petal heuristic did not check the route cost limit
 after removing repeated visits

---
 verypy/classic_heuristics/petalvrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 24739eb..e875cc0 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -852,6 +852,10 @@ def petal_init(points, D, d, C, L, K=None,
                                          "multiple times and remove those "+
                                          "visits that are unnecessary")
                         sol_feasible = _remove_multiserved(chosen_ptl_routes, D)
+                        # removing visits can make a route longer if D does
+                        #  not satisfy triangle inequality
+                        if L and any(objf(r, D)-S_EPS>L for r in chosen_ptl_routes):
+                            sol_feasible = False
                     else:
                         # Once the first feasible solution is found, we no longer 
                         #  accept infeasible ones!
-- 
2.43.0


From e2d4a9298bde45d57b49afe9d3b95cb846d2c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 24/67] fix: odd and fractional service times were truncated
 when baked into an integer distance matrix

---
 verypy/cvrp_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..97bd31d 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -237,12 +237,13 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    halftst = D.dtype.type(st/2.0)
+    if float(tst)!=float(st) or float(halftst)!=float(st/2.0):
         D_c = D.astype('d')
-        halftst = tst/2.0
+        tst = float(st)
+        halftst = st/2.0
     else:
         D_c = np.copy(D)    
-        halftst = int(tst/2)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From a9af738075741a6846744942c8b23c244639270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 25/67] fix: normalizing or evaluating a list of routes failed
 if it contained an empty route

---
 verypy/cvrp_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 97bd31d..b3a4ed0 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route] # ignore empty routes
     else:
         #print(sol
         routes = _list_split(sol, 0)
@@ -208,6 +209,8 @@ def recalculate_objective(sol, D):
     if hasattr(sol[0], '__iter__'):
         # routes are separately
         for route in sol:
+            if len(route)==0:
+                continue
             f+= sum( D[route[i-1],route[i]] for i in range(1,len(route)))
             # sometimes a end or start (or both) visit to depot may be missing
             if route[0]!=0:
-- 
2.43.0


From e55932ccb94e258b5df94c0c56cd3e10e5433384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 26/67] fix: edge set of a symmetric problem had directed edges
 and vice versa

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..56fa869 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if not symmetric or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From bd6783645d2e98330284da3602e8f613656cd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 27/67] fix: ordered set index list got out of step when adding
 a present element or adding to an empty set

---
 verypy/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 56fa869..af26281 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,8 +166,10 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
+        if element in self.ods:
+            return
         self.ods[element] = None
-        if self.keylist:
+        if self.keylist is not None:
             self.keylist.append(element) # avoid full update
     def difference_update(self, collection):
         for element in collection:
-- 
2.43.0


From b369cc6b75bd1777bd1ea9c238e811dafc323b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 28/67] fix: pseudo-euclidean (ATT) distance divided the
 distance instead of its square by ten

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..7da32cd 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From db914e0e3dc46ec5efc38486b54118acdd8debb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 29/67] fix: moving the depot to index 0 corrupted the distance
 matrix

---
 verypy/cvrp_io.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 7da32cd..8be021c 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,10 +385,7 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
-            D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
-            D[i,:] = D[i,row_col_permutation]
+        D = D[row_col_permutation,:][:,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
         if points is not None and len(points)>0:
-- 
2.43.0


From 3060b2ccd680d72c1916d2d93b170eed4de7ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 30/67] fix: solution files as written by as_OPT_solution could
 not be read and their routes were not counted

---
 verypy/cvrp_io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 8be021c..c14a5f7 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -132,7 +131,7 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    coststring = l.replace(":"," ").split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
@@ -145,7 +144,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From e7f1a476afcf42294e9c51693bf420fd7dc353da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 31/67] fix: writing some of the nodes to a TSPLIB file wrote
 the demands of all nodes

---
 verypy/cvrp_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index c14a5f7..4cfe6e0 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -545,10 +545,10 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for i, idx in enumerate(selected_idxs[1:], 2):
+                    problem_file.write("%d %d\n"%(i, int(d[idx])))
             else:
-                for i in range(2,len(D)+1):
+                for i in range(2,len(selected_idxs)+1):
                     problem_file.write("%d 1\n"%i)
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
-- 
2.43.0


From d82f55b2a3910107c0b5efa0caf00b112a3ec765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 32/67] fix: service time section and side constraint fields
 without spaces could not be read

---
 verypy/cvrp_io.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 4cfe6e0..da6e0c8 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -414,29 +414,29 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
+            if ":" in l:
+                field, value = [p.strip() for p in l.split(":",1)]
+            else:
+                field, value = l.strip(), l.split()[-1] if l.strip() else ""
+
             if reading_service_time_section:
-                nid, nst = l.split()
-                if "." in nst:
-                    nst = float(nst)
-                else:
-                    nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
+                if len(l.split())==2 and l.split()[0].isdigit():
+                    nid, nst = l.split()
+                    nst = float(nst) if "." in nst else int(nst)
+                    if nid=="1":
+                        continue # the depot has no service time
+                    if ST is not None and nst!=ST:
+                        raise IOError("Only single (same) service time for all customers is supported")
                     ST = nst
-            if "DISTANCE" in l:
-                if "." in l:
-                    L = float( l.split()[-1] )
-                else:
-                    L = int( l.split()[-1] )
-            if "SERVICE_TIME" in l:
-                if "." in l:
-                    ST = float( l.split()[-1] )
-                else:
-                    ST = int( l.split()[-1] )
-            if "VEHICLES" in l:
-                K = int( l.split()[-1] )
-            if "SVC_TIME_SECTION" in l:
+                    continue
+                reading_service_time_section = False
+            if field.startswith("DISTANCE"):
+                L = float(value) if "." in value else int(value)
+            elif field.startswith("SERVICE_TIME"):
+                ST = float(value) if "." in value else int(value)
+            elif field.startswith("VEHICLES"):
+                K = int(value)
+            elif field.startswith("SVC_TIME_SECTION"):
                 reading_service_time_section = True
                     
     return K, L, ST
-- 
2.43.0


From 823c33fba6b3b82c6e3aa123baaf0f006fb640e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 33/67] fix: nearest neighbor route seeds 'farthest' and
 'closest' did the opposite of what they say

---
 verypy/classic_heuristics/nearest_neighbor.py       | 8 ++++----
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index b48e75e..8350ac4 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -87,9 +87,9 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
     N = len(node_nearest_neighbors)
     seed_node = None
     while True:
-        if seed_mode=='farthest':
+        if seed_mode=='closest':
             seed_node  = node_nearest_neighbors[0].popleft()[0]
-        elif seed_mode=='closest':
+        elif seed_mode=='farthest':
             seed_node  = node_nearest_neighbors[0].popright()[0]
         elif seed_mode=='nearest':
             nearest_distance = float('inf')
@@ -118,7 +118,7 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
             
 def nearest_neighbor_init(D, d, C, L=None, 
                           emerging_route_count=1,
-                          initialize_routes_with="farthest",
+                          initialize_routes_with="closest",
                           add_only_to_end=False,
                           forbidden_nodes=None,
                           route_improvement_callback=None):
@@ -134,7 +134,7 @@ def nearest_neighbor_init(D, d, C, L=None,
     * L is the optional constraint for the maximum route length/duration/cost.
     
     * emerging_route_count sets how many routes are constructed in parallel
-    * initialize_routes_with can be "farthest" (default) or "closest", which
+    * initialize_routes_with can be "farthest" or "closest" (default), which
        selects if the unrouted node farthest from the depot or closest to the
        depot is used to initialize the emerging route. Can also be "nearest", 
        and then the route is initialized with the two unrouted nearest 
diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index c4f4c64..f671bae 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -45,7 +45,7 @@ __maintainer__ = "Jussi Rasku"
 __email__ = "jussi.rasku@gmail.com"
 __status__ = "Development"
 
-TYAGI_SEED_METHOD = "farthest"
+TYAGI_SEED_METHOD = "closest"
 
 def _calculate_penalty(sol_or_route, D, d, C):
     penalty = 0
-- 
2.43.0


From 03f079f0a3ebb5a8aa0e3cf482c56608cec19970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 34/67] fix: parallel nearest neighbor with 'nearest' seeds
 failed when there were more routes than needed

---
 verypy/classic_heuristics/nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 8350ac4..c5f7437 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -108,6 +108,8 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                 if D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError("no unserved nodes left")
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From 3410a74ef134bae0e1c7312d4ef368ffe81f5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 35/67] fix: route-first cluster-second never considered
 serving all customers with one route

---
 verypy/classic_heuristics/rfcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 2ee6f4e..93169e2 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -99,12 +99,13 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 sequence_D[u_idx,v_idx] = route_cost+route_cost_constant
                 next_split[u_idx,v_idx] = v_idx
                 
+                # all of the nodes of the giant tour are on the same route
+                if v_idx==u_idx:
+                    break
                 # leave out the last node of the giant tour (same as the first)
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
-- 
2.43.0


From 7989b9cf9dc8599166eafebdedd288dbe0b8b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 36/67] fix: route-first cluster-second did not always put the
 number of routes first when minimising it

---
 verypy/classic_heuristics/rfcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 93169e2..501428e 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -225,7 +225,8 @@ def route_first_cluster_second_init(D, d, C, L=None, minimize_K=False,
     if __debug__:
         log(DEBUG, "TSP tour solution %s (%.2f)"%(str(giant_tour_sol),giant_tour_l))
         
-    route_cost_constant = giant_tour_l if minimize_K else 0.0    
+    # no two partitions differ more than this, hence the number of routes comes first
+    route_cost_constant = giant_tour_l+2*sum(D[0])+1.0 if minimize_K else 0.0    
     return _partition_to_routes_with_cost_matrix(D, d, C, L,
                                 giant_tour_sol, route_cost_constant, 
                                 partition_tsp_opt_algo, route_tsp_opt_algo)
-- 
2.43.0


From 15c0593fd38cc4717d0c341549f7cfa3c67f72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 37/67] fix: sweep took polar coordinates of two customers for
 cartesian coordinates

---
 verypy/classic_heuristics/sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..b9a2663 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -434,7 +434,7 @@ def sweep_init(coordinates, D, d, C, L=None, minimize_K=False,
     """
     
     N = len(D)
-    if len(coordinates[0])==2:
+    if len(coordinates[0])==2 and len(coordinates)==N:
         sweep = get_sweep_from_cartesian_coordinates(coordinates)
     elif len(coordinates)==3 and (len(coordinates[0])==len(coordinates[1])==len(coordinates[2])):
         # it is not necessarily to sweep to contain all nodes in D and d
-- 
2.43.0


From bee58e879ccf1196c589db8bda3279c108fbc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 38/67] fix: sweep removed the wrong customers from the last
 route when it exceeded the route cost limit

---
 verypy/classic_heuristics/sweep.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index b9a2663..fd300ca 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -225,21 +225,25 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                     log(DEBUG-2, "Route %s full."%str(list(current_route.node_set)))
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
+            all_swept = sweep_node is None
             if L:
+                # the node at sweep_pos is not on the route, unless the sweep has
+                #  run out of nodes. Then it was the last one added.
+                next_pos = sweep_pos if not all_swept else \
+                           _step(sweep_pos, step_inc, max_sweep_idx)
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, next_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=next_pos:
                     sweep_pos = L_feasible_pos  
-                    if sweep_node!=None:
-                        sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    sweep_node = sweep_pos_to_node_idx(sweep_pos)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
                 
-            if sweep_node!=None and intra_route_callback:                
+            if not all_swept and intra_route_callback:                
                 # Do intra route improvement. It may include new unrouted
                 #  customers to the route or remove existing ones!
                 current_route, included_nodes, ignored_nodes, route_complete = \
-- 
2.43.0


From 09a3851f51ba77a0c5233ec0c4c4f6fb280a9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:44 +0000
Subject: [PATCH 39/67] fix: interrupted petal heuristic could hand over an
 infeasible solution or ignore the interrupt

---
 verypy/classic_heuristics/petalvrp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index e875cc0..18636f8 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -876,7 +876,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-                    return best_sol
+                    break # the main loop
                 continue
             
             petal_sol = routes2sol(chosen_ptl_routes)
@@ -993,7 +993,8 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
-        raise KeyboardInterrupt(best_sol)
+        # an infeasible best so far is not worth passing on
+        raise KeyboardInterrupt(best_sol if best_sol_feasible else None)
         
     return best_sol 
         
-- 
2.43.0


From e64097a692ac1b66002db427ac7a3a1087481b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 40/67] fix: cheapest insertion failed with more emerging
 routes than customers

---
 verypy/classic_heuristics/cheapest_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index c335628..4fd145c 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -307,8 +307,9 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     else:
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
+    # (there is no need for more emerging routes than there are customers)
     route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+                   for k in range(min(emerging_route_count, len(unrouted)))]
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From dc3c1b85d9b31fd03e1fcfe320886f4e5d26bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 41/67] fix: command line option -D ROUND always crashed

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..cfe90bc 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.round(D)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From be636a7c613ec6ed39c3013872cd80c10e6d457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 42/67] fix: command line crashed on problems without a
 capacity constraint

---
 verypy/VeRyPy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index cfe90bc..1af091e 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,9 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    instance_data[bn] = (N,sol_K,C,
+                                         None if tightness is None else "%.3f"%tightness,
+                                         L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From b3dabdae265c0564a98e3901af67339ba985074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 43/67] fix: --forbid crashed on unknown or differently
 capitalized algorithm names

---
 verypy/VeRyPy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 1af091e..e02a07b 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -105,9 +105,13 @@ def main(overridden_args=None):
     # get algorithms
     algos = get_algorithms(app_args.active_algorithms)
     if app_args.forbid_algorithms:
-        forbidden_algos = [algo_name_aliases[algo_name]
-                           for algo_name in app_args.forbid_algorithms
-                           if (algo_name in app_args.forbid_algorithms)]
+        forbidden_algos = []
+        for algo_name in app_args.forbid_algorithms:
+            algo_name = algo_name.lower() # ignore case
+            if algo_name in algo_name_aliases:
+                forbidden_algos.append(algo_name_aliases[algo_name])
+            else:
+                print(algo_name, "is not a valid algorithm name", file=sys.stderr)
         algos = [a for a in algos if (a[0] not in forbidden_algos)]
 
     # get primary objective
-- 
2.43.0


From 9c1ffde22642f219115024ab39e28a00dbd2d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 44/67] fix: collected results crashed without solutions and
 mixed up the columns after an interrupt

---
 verypy/VeRyPy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index e02a07b..bf46253 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -290,9 +290,11 @@ def main(overridden_args=None):
         print("\n")
         print_title = True
         ls_label = "+".join(ls_algo_names)
+        # an interrupt may have left some of the results missing
+        solved_with = sorted(set(algo_name for _, algo_name, _, _ in algos))
         for problem, algo_results in sorted(results.items()):
             algo_names = [ "%s+%s"%(algo_name,ls_label) if ls_algo_names else (algo_name)\
-                           for algo_name in sorted(algo_results.keys())]
+                           for algo_name in solved_with]
             
             if print_title:
                 instance_fields = "instance\t"
@@ -304,9 +306,10 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
-            for _, result in sorted(algo_results.items()):
-                print("\t", result,end="")
+                # not available if none of the algorithms produced a solution
+                print("\t".join( str(e) for e in instance_data.get(problem, ["-"]*6) ),end="")
+            for algo_name in solved_with:
+                print("\t", algo_results.get(algo_name, "-"),end="")
             print()
     sys.stdout.flush()
     sys.stderr.flush()
-- 
2.43.0


From 5ad0e154dae54d471e2b53513115fcad4f8f78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 45/67] fix: --recursive listed problems of nested folders many
 times

---
 verypy/shared_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..3196197 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,9 +157,11 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
+        all_paths = list(problem_paths)
         for problem_path in problem_paths:
             for root, dirs, _ in walk(problem_path):
-                problem_paths += [path.join(root,d) for d in dirs]
+                all_paths += [path.join(root,d) for d in dirs]
+        problem_paths = all_paths
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-- 
2.43.0


From af3d40c7d72edcd99f9847dd13297681f91178dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 46/67] fix: solving a problem crashed if no solution was
 produced

---
 verypy/shared_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 3196197..8f8185a 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -152,6 +152,8 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     if interrupted:
         raise KeyboardInterrupt()
     
+    if best_sol is None:
+        return None, float('inf'), float('inf'), elapsed
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
@@ -311,7 +313,8 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From 89736b9d370a8aac276ca93452b62cd79079a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 47/67] fix: postoptimization improvement was not reported in
 percents

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index bf46253..e1f5f52 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -222,7 +222,7 @@ def main(overridden_args=None):
                         ls_sol_q = cvrp_ops.recalculate_objective(sol, D)
                     if ls_sol_q<sol_q:
                         if not app_args.minimal_output:
-                            print(" improved by %.2f%%."%(1-ls_sol_q/sol_q))
+                            print(" improved by %.2f%%."%(100*(1-ls_sol_q/sol_q)))
                         sol_q = ls_sol_q
                         sol_K = sol.count(0)-1
                     else:
-- 
2.43.0


From 75e9fe2c14ca7f1ca89f521d1c3e27e09c218d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 48/67] fix: an interrupted postoptimization lost the solution
 and the collected results

---
 verypy/VeRyPy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index e1f5f52..d530786 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -213,8 +213,11 @@ def main(overridden_args=None):
                     if not app_args.minimal_output:
                         print("Postoptimize with %s ..."%
                               ", ".join(app_args.local_search_operators),end="")
-                    sol = do_local_search(ls_ops, sol, D, d, C, L)
-                    sol = cvrp_ops.normalize_solution(sol)
+                    try:
+                        sol = do_local_search(ls_ops, sol, D, d, C, L)
+                        sol = cvrp_ops.normalize_solution(sol)
+                    except KeyboardInterrupt:
+                        interrupted = True # report the unimproved solution
                         
                     if app_args.show_solution_cost:
                         ls_sol_q = cvrp_ops.recalculate_objective(sol, D_c)
-- 
2.43.0


From 2872e8e10666c2d00b7bd3e3825cdf73708fa18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 49/67] fix: gap names its corrective action whenever a
 constraint is violated

With non-adaptive L weights the debug message used a name never assigned, so
the call failed with UnboundLocalError unless python was run with -O.
---
 verypy/classic_heuristics/gapvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 6c513c5..b1da1d0 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -783,6 +783,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                 solved = False
                 sol_K = 0
                 take_next_seed = False
+                if __debug__: corrective_action = "try with another seed = %d"%seed_trial
                 try:
                     # Distribute the nodes to vehicles using the approxmate 
                     # service costs in D_s and by solving it as GAP
-- 
2.43.0


From af1d23e1c6b8fb70af4b512b3ee72bba4bd0b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 50/67] fix: gap large demand seeds can be used for more than
 one trial

A tuple of the additional customers was used to index the mask, which numpy
takes as a multidimensional index.
---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index b1da1d0..82bee70 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -528,7 +528,7 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
         sorted_d = [(d[i], i) for i in not_over_half_idxs]
         sorted_d.sort(reverse=True)
         sorted_d_idxs = list(zip(*sorted_d))[1]
-        additional_large_d_idxs = sorted_d_idxs[max(0, trial-N):min(N,trial)]
+        additional_large_d_idxs = list(sorted_d_idxs[max(0, trial-N):min(N,trial)])
         candidate_d_idxs+=additional_large_d_idxs
         candidate_d_mask[additional_large_d_idxs] = True
     
-- 
2.43.0


From bb639909cbb1a38137884b146dff8a2eee7dbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 51/67] fix: gap does not increase K beyond the number of
 customers

k-means seeds cannot be generated for more clusters than there are customers.
---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 82bee70..be2c12e 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -742,7 +742,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     best_K = None
     seed_trial = 0
     incK = 0
-    maxKinc = max(startK+1, int(startK*INCREASE_K_ON_FAILURE_UPTO))
+    maxKinc = min(N-1, max(startK+1, int(startK*INCREASE_K_ON_FAILURE_UPTO)))
     
     L_ctr_multipiler = L_MPLR_DEFAULT
     if L and use_adaptive_L_constraint_weights:
-- 
2.43.0


From 8f57be00eb9aa043539e08ffc9fbcafbbd54d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 52/67] fix: LKH wrapper returns the cost of the tour in the
 given distances

Real valued distances were truncated, for short tours to integers, so the cost
was too small and routes longer than the limit were accepted as feasible.
---
 verypy/tsp_solvers/tsp_solver_lkh.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..f038556 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -45,7 +45,7 @@ def solve_tsp_lkh(D, selected_idxs,
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
@@ -94,7 +94,6 @@ def solve_tsp_lkh(D, selected_idxs,
     
     # 4. Process output
     sol = []
-    obj_f = 0
     tail = []
     with open(temp_output_file_path, 'r') as output_file:
         skip = True
@@ -103,8 +102,6 @@ def solve_tsp_lkh(D, selected_idxs,
             l = l.strip()
             if l == "EOF" or l == "-1":
                 skip = True
-            elif "Length = " in l:
-                obj_f = float(l.split()[-1])
             elif not skip:
                 vrp_nid = selected_idxs[int(l)-1]
                 if vrp_nid==0:
@@ -124,10 +121,9 @@ def solve_tsp_lkh(D, selected_idxs,
     os.remove(temp_parameter_file_path) 
     os.remove(temp_output_file_path) 
     
-    if are_float_distances:
-        obj_f = obj_f/float_accuracy;
-    
-    return sol, obj_f
+    # the length LKH reports is that of the distances truncated to integers
+    sol_f = sum(D[sol[i-1],sol[i]] for i in range(1,len(sol)))
+    return sol, sol_f
     
 if __name__=="__main__":
     from verypy.shared_cli import tsp_cli
-- 
2.43.0


From 801e5a95b8f0f1dc36caf1586cac7e02e483c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 53/67] fix: ACOTSP wrapper recognises real valued distances

np.float is not a numpy scalar type and no longer exists, so the wrapper failed.
---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..bbf7184 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -69,7 +69,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
-- 
2.43.0


From e400af87765037aa26cc3ad07cf70d76d97b3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 54/67] fix: ACOTSP wrapper can be asked to use ants

The stream for the error output was only opened when ants were disabled.
---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index bbf7184..43ef06d 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -79,12 +79,12 @@ def solve_tsp_acotsp(D, selected_idxs,
                       float_to_int_precision=float_accuracy)
     
     # 2. Call acotsp
+    nul_f = open(os.devnull, 'w')
     if use_ants:
         # with defaults
         command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
     else:
         # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
         command = [ACOTSP_EXE_PATH,
                    "-r", "1", # one try is enough without ants (determnistic)
                    "-m", "1", # one (deteministic) ant is still needed 
-- 
2.43.0


From e363230e6e88dc0d2f196de994e255d424025ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 55/67] fix: the matching problem of mbsa is a matching

The constraints asked only that each route is the first one of exactly one
pair, so that the same route could be the second one of several pairs.
E-n51-k5 with exact distances now gives 585.6 (Desrochers and Verhoog: 586).
---
 verypy/classic_heuristics/matchingvrp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index a335a11..7a3f5b2 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -52,10 +52,13 @@ __status__ = "Development"
     
 def _mmp_add_cnts_sum(m, x_ij, x_ij_keys, w_ij, n):
     ## constraints
+    # each route is in at most one pair (as the first or as the second one)...
     for k in range(0,n):
-        active_vars = x_ij.sum(k,'*')
+        active_vars = x_ij.sum(k,'*')+x_ij.sum('*',k)
         if active_vars.size()>0:
-            m.addConstr( active_vars == 1, "m_%d"%k )
+            m.addConstr( active_vars <= 1, "m_%d"%k )
+    # ... and all are paired (but one, if there is an odd number of them)
+    m.addConstr( x_ij.sum() == n//2, "m_all" )
 
 def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     """A helper function that solves a weighted maximum matching problem.
-- 
2.43.0


From e20b5b3d150625522d066eee8be798a2c6f77fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 56/67] fix: mbsa counts a zero saving as a valid merge

With W!=0, a saving of 0.0 was taken for the lack of valid merges.
---
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 7a3f5b2..3a136b8 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -303,8 +303,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break # all customers are on one route, nothing to merge
             
             w_ij,x_ij_keys = zip(*savings)
-            valid_matchings = any( w for w in w_ij if w!=W )
-            if valid_matchings==0:
+            valid_matchings = any( w!=W for w in w_ij )
+            if not valid_matchings:
                 break
             
             s_ij = None
-- 
2.43.0


From feca9f156fa5652d889f5299d1cabd8f7a5c0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 57/67] fix: a binary variable is set if its value is about 1

The solver returns values such as 1e-6 for the variables that are 0.
---
 verypy/classic_heuristics/gapvrp.py      | 2 +-
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 verypy/classic_heuristics/petalvrp.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index be2c12e..87c819e 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -76,7 +76,7 @@ def _decision_variables_to_assignments(m, Y_ik, N, K):
     for k in range(K):
         route_nodes = []
         for i in range(1, N):
-            if Y_ik_values[i,k]:
+            if Y_ik_values[i,k]>0.5:
                 route_nodes.append(i)
         assignments.append(route_nodes)
     return assignments
diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 3a136b8..a5c081b 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -94,10 +94,10 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     if m.Status == GRB.OPTIMAL:
         if w2_ij==None:
             max_wt, max_merge = max( (w1_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
         else:
             max_wt, _, max_merge = max( (w1_ij[k], w2_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
             
         return max_wt, max_merge[0], max_merge[1]
     elif m.Status == GRB.TIME_LIMIT:
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 18636f8..483a3d4 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -365,7 +365,7 @@ def _decision_variables_to_petals(X, active_ptls, relaxed_ptls):
             # relaxed solution has additional decision variables for choosing
             #  which constraints to relax, skip them
             break
-        if v:
+        if v>0.5:
             if j<nactive:
                 r_w_idx = (list(active_ptls.routes[j]), j)
             else:
-- 
2.43.0


From 82cc00ff44046add7e0df395e034d8a4acf565dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 58/67] fix: petal checks the length of the relaxed petals

---
 verypy/classic_heuristics/petalvrp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 483a3d4..6a96b7f 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -274,7 +274,10 @@ def _generate_solution_relaxation_petals(
                     else:
                         mod_route_datas = [new_rd1, new_rd2]
                         
-                    relaxed_route_datas.extend(mod_route_datas)
+                    # taking a customer away can make a route longer if D does
+                    #  not satisfy the triangle inequality
+                    relaxed_route_datas.extend( rd for rd in mod_route_datas
+                                               if not L or rd.cost-S_EPS<=L )
                     
                         
     return relaxed_route_datas 
-- 
2.43.0


From 54ab99677aa91f5279e33eb11a5ffa882fabc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 59/67] fix: petal starts from the smallest possible number of
 vehicles

With minimize_K, the first K was one too high if the total demand fills the
vehicles exactly.
---
 verypy/classic_heuristics/petalvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 6a96b7f..966a8b0 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -696,7 +696,8 @@ def petal_init(points, D, d, C, L, K=None,
         # "smallest integer **greater** than x" (note, not equal)
         d_tot = sum(d)
         v = ceil(d_tot/float(C)+C_EPS)
-        K_constraint = v if (not K and minimize_K) else K
+        K_min = max(1, int(ceil(d_tot/float(C)-C_EPS)))
+        K_constraint = K_min if (not K and minimize_K) else K
         C_t = d_tot-(K-1)*C if K else d_tot-(v-1)*C
     else:
         K_constraint = 1 if (not K and minimize_K) else K
-- 
2.43.0


From 9041c6bc6015adc4edaf48b2f937e625244cbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 60/67] fix: petal does not loosen K if it has a feasible plan

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 966a8b0..d59b857 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -875,7 +875,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint and K_constraint<N-1:
+                elif K_constraint and K_constraint<N-1 and not best_sol_feasible:
                     # more routes than there are customers cannot help
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
-- 
2.43.0


From d9c0187d6d76acf0d20b4639b704ff2b023af617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 61/67] fix: gap places the seeds if the demands or distances
 are zero

---
 verypy/classic_heuristics/gapvrp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 87c819e..593a569 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -275,7 +275,9 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                         cone_fraction = min(1.0, (group_target-group_cum)/d[prev_node_i])
                     cone_wt = cone_fraction*d[prev_node_i]
                 else:
-                    cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
+                    cone_fraction = 1.0
+                    if D[prev_node_i,i]!=0:
+                        cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
                     cone_wt = cone_fraction*D[prev_node_i,i]
                 
                 group_cum+=cone_wt
@@ -290,11 +292,12 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                     else:
                         log(DEBUG-3,"Node %d, added %.2f %% of cost (%.2f)" %\
                             (prev_node_i, cone_fraction*100, 0.5*D[prev_node_i,i]))
-                    log(DEBUG-2,"Group %.2f %% full"%\
-                        (group_cum/group_target*100.0))
+                    log(DEBUG-2,"Group %.2f full of %.2f"%\
+                        (group_cum, group_target))
                     # pylint: enable=bad-string-format-type
                                     
-                if (group_target-group_cum)<EPS:  
+                # all of the targets may be 0, do not make more than K groups
+                if (group_target-group_cum)<EPS and len(grouped_cones)<K:
                     group_end_ray = bisect_angle(prev_ray, ray, cone_fraction)  
                     # group is full, store it
                     grouped_cones.append( _Cone(group_start_ray,group_end_ray,
-- 
2.43.0


From d54ccdf70483d7d799131f60ddec6c8cf3466bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:38 +0000
Subject: [PATCH 62/67] fix: rfcs goes around the giant tour only once

If D does not satisfy the triangle inequality, going twice around it can be
cheaper, and the plan served customers twice.
---
 verypy/classic_heuristics/rfcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 501428e..2ea6e38 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -122,7 +122,10 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     for i in range(N):
         for j in range(N):
             for k in range(N):
-                if sequence_D[i,j] > sequence_D[i,k]+sequence_D[k,j]:
+                # k has to be between i and j, as going around the giant tour 
+                #  more than once would serve some customers twice
+                if (sequence_D[i,j] > sequence_D[i,k]+sequence_D[k,j] and
+                    0 < (k-i)%gtl < (j-i-1)%gtl+1):
                     sequence_D[i,j] = sequence_D[i,k]+sequence_D[k,j]
                     next_split[i,j] = next_split[i,k]
     
-- 
2.43.0


From 195a9cec36459b1420f7f730e8cb1c6d06fdc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:24 +0000
Subject: [PATCH 63/67] fix: local search moves customers to the empty routes
 of the solution

---
 verypy/local_search/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/local_search/__init__.py b/verypy/local_search/__init__.py
index 8c750d6..5aa5fdf 100644
--- a/verypy/local_search/__init__.py
+++ b/verypy/local_search/__init__.py
@@ -78,6 +78,9 @@ def do_local_search(ls_ops, sol, D, d, C, L=None,
     
     current_sol = sol
     route_datas = RouteData.from_solution(sol, D, d)
+    # The empty routes of the solution (0,0) are left out of the route datas,
+    #  but it must be possible to move customers there. 
+    route_datas += [RouteData() for i in range(1,len(sol)) if sol[i-1]==sol[i]]
     route_data_idxs = list(range(len(route_datas)))
 
     # We keep track of the operations to avoid search when it has already been
-- 
2.43.0


From 31bb0a1eb62a9cbe8abb628fe195f73ee44100f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:06 +0000
Subject: [PATCH 64/67] fix: command line of the tour solvers does not fail
 because of rounding

---
 verypy/shared_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 8f8185a..e42a052 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -240,7 +240,7 @@ def tsp_cli(tsp_f_name, tsp_f):
         tsp_o = objf(tsp_sol,D)
         print("SOLUTION:", str(tsp_sol))
         print("COST:", tsp_o)  
-        assert(tsp_f==tsp_o)
+        assert(abs(tsp_f-tsp_o)<1e-6) # f may have been summed in another order
     else:
         print("usage: tsp_solver_%s.py TSPLIB_file.tsp"%tsp_f_name, file=sys.stderr)
          
-- 
2.43.0


From 0536d1470c55622bb6ce48258d6d259172f75344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:54 +0000
Subject: [PATCH 65/67] fix: two-phase heuristic associates customers with
 their nth best route

The nth best association used the position of route n in the order of the
routes instead of the route at position n, so with three or more routes the
customers were offered to other routes than documented.
---
 verypy/classic_heuristics/cmt_2phase.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index aaff375..5669567 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -296,11 +296,9 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                     
                 #take_nth = min(len(route_seed_idxs), associate_to_nth_best_route)-1
                 take_nth = associate_to_nth_best_route-1
-                reorder_rows_per_col_idxs = np.argpartition(eps_unrouted[route_seed_idxs,:],
-                                              take_nth, axis=0)
-                nth_best, unrouted_node_order = np.where(
-                        reorder_rows_per_col_idxs==take_nth)
-                r_stars_unrouted = nth_best[ np.argsort(unrouted_node_order) ]
+                # the row of each column that is at the nth place in order
+                r_stars_unrouted = np.argpartition(eps_unrouted[route_seed_idxs,:],
+                                                   take_nth, axis=0)[take_nth,:]
             
             if choose_most_associated_route:
                 unique, counts = np.unique(r_stars_unrouted, return_counts=True)
-- 
2.43.0


From d3a45d8c56ea5db75a1a493a10e6e8be6141a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 66/67] fix: gapvrp: use the seeds' own rows in the delivery
 cost approximation

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 593a569..e660d94 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -122,7 +122,7 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
     Y_ik_keys = [(i,k) for k in range(K) for i in range(1,N)]
     
     # delivery cost approximation coefficients for the objective function
-    insertion_cost = {(i,k): D_s[0,i]+D_s[k,i]-D_s[k,0] \
+    insertion_cost = {(i,k): D_s[0,i]+D_s[k+1,i]-D_s[k+1,0] \
                               for i,k in Y_ik_keys}
                                   
     # variables and the objective
-- 
2.43.0


From 42a7218e51486dc3e955d46f9875f3c5f911bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 67/67] fix: gillet_miller_sweep: a limit that is not given
 does not forbid the improvement

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index 2b10673..9062af3 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -153,7 +153,7 @@ def _improvement_callback(route_data, callback_datastructures,
     
     ## G&M Step 9    
     
-    if not ((L and D2-S_EPS<L) and (C and D2_demand-C_EPS<=C)):
+    if not ((not L or D2-S_EPS<L) and (not C or D2_demand-C_EPS<=C)):
         if __debug__:
             log(DEBUG-2,"G&M Step 9, rejecting replacement of KII=n%d with JJX=n%d"%
                   (to_remove_node_KII, candidate_node_JJX))
@@ -257,12 +257,12 @@ def _improvement_callback(route_data, callback_datastructures,
         D5_route_nodes.add(candidate_node_JII)
         D5_route,D5 = solve_tsp(D, list(D5_route_nodes))
         D5_demand = D2_demand+d[candidate_node_JII] if C else 0  
-        if not ((L and D5-S_EPS<L) and (C and D5_demand-C_EPS<=C)):
+        if not ((not L or D5-S_EPS<L) and (not C or D5_demand-C_EPS<=C)):
             if __debug__:
                 log(DEBUG-2, "G&M Step 13, rejecting replacement of KII=n%d with JJX=n%d and JII=n%d"%
                     (to_remove_node_KII, candidate_node_JJX, candidate_node_JII))
                 log(DEBUG-3, "  which would have formed a route %s (%.2f)"%(str(D5_route),D5))
-                if D5_demand-C_EPS>C:
+                if (C and D5_demand-C_EPS>C):
                     log(DEBUG-3," violating the capacity constraint")
                 else:
                     log(DEBUG-3," violating the maximum route cost constraint")
-- 
2.43.0

