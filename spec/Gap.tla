--------------------------------- MODULE Gap -------------------------------
(* The generalised assignment of Fisher and Jaikumar.  S[k] are the         *)
(* distances of seed k from the depot (S[k][1]) and from the customers; to  *)
(* give customer i to seed k costs the detour over i of the way depot-seed. *)
EXTENDS CVRP
Huge == 1000000000
Detour(I, S, i, k) == Dist(I, 0, i) + S[k][i+1] - S[k][1]
\* least total detour of giving the customers i..n to vehicles already loaded with w
RECURSIVE Cheapest(_, _, _, _)
Cheapest(I, S, i, w) ==
  IF i > I.n THEN 0
  ELSE LET ks == {k \in DOMAIN S : I.C = 0 \/ w[k] + Dem(I, i) <= I.C}
           ts == {<<Detour(I, S, i, k), Cheapest(I, S, i+1, [w EXCEPT ![k] = @ + Dem(I, i)])>> : k \in ks}
           cs == {t[1] + t[2] : t \in {u \in ts : u[2] < Huge}} IN
       IF cs = {} THEN Huge ELSE Min(cs)
Optimum(I, S) == Cheapest(I, S, 1, [k \in DOMAIN S |-> 0])
\* least total detour of the routes rs, each given to a seed of its own
RECURSIVE Given(_, _, _, _, _)
Given(I, S, rs, j, free) ==
  IF j > Len(rs) THEN 0
  ELSE IF free = {} THEN Huge
  ELSE Min({FoldLeft(LAMBDA acc, i : acc + Detour(I, S, i, k), 0, rs[j]) + Given(I, S, rs, j+1, free \ {k}) : k \in free})
Spent(I, S, rs) == Given(I, S, rs, 1, DOMAIN S)
=============================================================================
