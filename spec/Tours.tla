------------------------------- MODULE Tours -------------------------------
(* A tour solver asked about some of the nodes.  An external program is     *)
(* given the distances between the chosen nodes, numbers them 1..m in the   *)
(* order given and prints one tour, a line per node, from wherever it       *)
(* likes; the answer is that tour in the caller's numbering, turned so that *)
(* it starts at the depot, closed, with its cost in the caller's distances. *)
EXTENDS CVRP

VARIABLES line,  \* next line of the program's output
          head,  \* nodes read from the depot on
          tail,  \* nodes read before the depot was
          seen   \* the depot has been read
tvars == <<line, head, tail, seen>>
TInit == line = 1 /\ head = <<>> /\ tail = <<>> /\ seen = FALSE
Read(sel, reply) ==
  /\ line <= Len(reply)
  /\ LET c == sel[reply[line]] IN
     /\ seen' = (seen \/ c = 0)
     /\ IF seen \/ c = 0 THEN head' = Append(head, c) /\ UNCHANGED tail
                         ELSE tail' = Append(tail, c) /\ UNCHANGED head
  /\ line' = line+1
Answer == LET o == head \o tail IN o \o <<o[1]>>

Cyc(t, k) == [i \in 1..Len(t) |-> t[((i-1+k) % Len(t))+1]]
SameTour(a, b) == Len(a) = Len(b) /\ (\E k \in 0..Len(a)-1 : Cyc(a, k) = b \/ Cyc(Reverse(a), k) = b)
Open(t) == SubSeq(t, 1, Len(t)-1)
IsClosed(t) == Len(t) >= 2 /\ t[1] = t[Len(t)]
TourCost(I, t) == PathCost(I, t)

\* cheapest way from f through all of S back to z (S by dynamic programming)
RECURSIVE Thru(_, _, _, _)
Thru(I, f, S, z) == IF S = {} THEN Dist(I, f, z) ELSE Min({Dist(I, f, c) + Thru(I, c, S \ {c}, z) : c \in S})
OptTour(I, sel) == IF Len(sel) = 1 THEN 0 ELSE Thru(I, sel[1], Range(sel) \ {sel[1]}, sel[1])
=============================================================================
