------------------------------- MODULE Split --------------------------------
(* Cutting a giant tour (a circular order of the customers) into routes of  *)
(* consecutive customers at least cost.  Arcs are <<first position, length>>*)
EXTENDS CVRP
Arc(g, s, m) == [k \in 1..m |-> g[((s-1 + k-1) % Len(g)) + 1]]
INF == 1000000000
\* cost of the arc as a route: AC[s][m], INF when it does not fit
Forward(I, g, AC, s) ==       \* cheapest cut of the tour opened before position s
  LET n == Len(g)
      f == FoldLeftDomain(LAMBDA acc, k:     \* acc[k+1]: cheapest cost of the first k customers
             Append(acc, Min({IF acc[j+1] >= INF \/ AC[((s-1+j) % n)+1][k-j] >= INF THEN INF
                              ELSE acc[j+1] + AC[((s-1+j) % n)+1][k-j] : j \in 0..k-1})),
             <<0>>, g)
  IN f[n+1]
Optimum(I, g, AC) == Min({Forward(I, g, AC, s) : s \in DOMAIN g})
=============================================================================
