-------------------------------- MODULE Units ------------------------------
(* The units of measurement.  An instance with every distance and the route *)
(* cost limit times one factor, and every demand and the capacity times     *)
(* another, is the same instance: the same routes fit, and costs compare in *)
(* the same way.  Factors are fractions num/den.                            *)
EXTENDS CVRP
\* J is I in other units: (I's numbers) / den = (J's numbers) / num
SameIn(I, J, fd, fq) ==
  /\ fd[1] > 0 /\ fd[2] > 0 /\ fq[1] > 0 /\ fq[2] > 0
  /\ I.n = J.n
  /\ I.L*fd[1] = J.L*fd[2] /\ I.C*fq[1] = J.C*fq[2]
  /\ \A a, b \in 1..I.n+1 : I.D[a][b]*fd[1] = J.D[a][b]*fd[2]
  /\ \A k \in 1..I.n+1 : I.d[k]*fq[1] = J.d[k]*fq[2]
Scaled(I, ks, kd) == [n |-> I.n, D |-> [a \in DOMAIN I.D |-> [b \in DOMAIN I.D |-> I.D[a][b]*ks]],
                      d |-> [k \in DOMAIN I.d |-> I.d[k]*kd], C |-> I.C*kd, L |-> I.L*ks]
=============================================================================
