------------------------------ MODULE GenTrace ------------------------------
(* Randomly generated instances: well-formedness of every recorded one.     *)
(* Coordinates are integers after scaling by q.scale and rounding (error of *)
(* at most 1/2 each), demands are bracketed by 1024ths.                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, v
Sq(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Lo(x) == IF x < 0 THEN 0 ELSE x*x
\* D is the distance of p and q (scaled) rounded to the nearest unit
Rounded(q, a, b) == LET s == Sq(q.pts[a], q.pts[b])
                        m == (2*q.D[a][b]*q.scale)
                        h == q.scale + 3 IN      \* half a unit (doubled) and the rounding of the points
                    Lo(m-h) <= 4*s /\ 4*s <= (m+h)*(m+h)
N1(q) == 1..(q.n+1)
Clause(q) ==
  IF q.out # "ret" THEN "failed with an error"
  ELSE IF q.size # q.n \/ Len(q.pts) # q.n+1 \/ Len(q.dlo) # q.n+1 \/ Len(q.D) # q.n+1 THEN "wrong number of customers"
  ELSE IF q.cap # q.C THEN "wrong capacity"
  ELSE IF q.pts[1] # <<0, 0>> \/ q.dhi[1] # 0 \/ q.dlo[1] # 0 THEN "the depot is not first with zero demand"
  ELSE IF \E i \in 2..(q.n+1) : q.dlo[i] < 1024 THEN "a demand is below one"
  ELSE IF \E i \in 2..(q.n+1) : q.dhi[i] > 1024*q.C THEN "a demand exceeds the capacity"
  ELSE IF \E i \in N1(q) : Len(q.D[i]) # q.n+1 \/ q.D[i][i] # 0 THEN "matrix is not square with a zero diagonal"
  ELSE IF \E i, j \in N1(q) : q.D[i][j] # q.D[j][i] THEN "matrix is not symmetric"
  ELSE IF ~q.isint THEN "distances are not rounded"
  ELSE IF \E i, j \in N1(q) : i < j /\ ~Rounded(q, i, j) THEN "a distance is not that of the points"
  ELSE IF q.regular /\ \E i \in 2..(q.n+1) :
            LET R == q.R*q.scale  s == Sq(q.pts[i], <<0, 0>>) IN Lo(R-2) > s \/ s > (R+2)*(R+2) THEN "a regular customer is not on the circle"
  ELSE IF q.regular /\ q.n >= 3 /\ \E i \in 3..(q.n+1) :     \* equal steps around the circle
            LET a == Sq(q.pts[i], q.pts[i-1])  b == Sq(q.pts[2], q.pts[q.n+1])
                R == q.R*q.scale IN a-b > 16*R \/ b-a > 16*R THEN "regular customers are not evenly spaced"
  ELSE IF q.regular /\ q.n = 2 /\ Sq(q.pts[2], q.pts[3]) < 4*q.R*q.scale*(q.R*q.scale - 4) THEN "regular customers are not evenly spaced"
  ELSE "ok"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = ""
        /\ LET c == Clause(Trace[tid]) IN
             /\ v' = c
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
        /\ UNCHANGED tid
=============================================================================
