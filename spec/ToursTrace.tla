----------------------------- MODULE ToursTrace -----------------------------
(* Recorded calls of the tour solvers: what the program was asked, what it  *)
(* replied (read line by line), what the caller got.                        *)
EXTENDS Tours, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Insts == JsonDeserialize(IOEnv.VINST)
VARIABLES tid, v
vars == <<tvars, tid, v>>
r == Trace[tid]
I == Insts[r.i]
m == Len(r.sel)
Init == tid \in 1..Len(Trace) /\ v = "run" /\ TInit
Abs(x) == IF x < 0 THEN -x ELSE x
\* the program sees each distance to within one unit of the stated precision
Near(x, y) == IF r.acc = 0 THEN x * r.s = y ELSE Abs(x * r.s - y * r.acc) < r.s
Asked == /\ Len(r.file) = m
         /\ \A a, b \in 1..m : a < b => Near(r.file[a][b], Dist(I, r.sel[a], r.sel[b]))
Fetched == r.file # <<>>
AskClause == IF r.out # "tour" THEN r.out
             ELSE IF Fetched /\ ~Asked THEN "asked about other distances"
             ELSE IF ~r.clean THEN "leaves files behind" ELSE ""
Verdict(c) == v' = c /\ (IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)) /\ UNCHANGED <<tvars, tid>>
Ask == v = "run" /\ (IF AskClause # "" THEN Verdict(AskClause) ELSE v' = "asked" /\ UNCHANGED <<tvars, tid>>)
Line == v = "asked" /\ Fetched /\ Read(r.sel, r.reply) /\ UNCHANGED <<tid, v>>
Final == IF \E k \in DOMAIN r.got : r.got[k] \notin Nodes(I) THEN "unknown node"
         ELSE IF ~IsClosed(r.got) THEN "tour is not closed"
         ELSE IF ~IsPermutationOf(Open(r.got), Range(r.sel)) THEN "tour does not visit each chosen node once"
         ELSE IF r.got[1] # r.sel[1] /\ r.sel[1] = 0 THEN "does not start at the depot"
         ELSE IF Fetched /\ ~SameTour(Open(r.got), Open(Answer)) THEN "another tour than the program's"
         ELSE IF Abs(r.cost - 1000 * TourCost(I, r.got)) > r.tol THEN "cost is not the cost of the tour"
         ELSE IF r.exact /\ TourCost(I, r.got) # OptTour(I, r.sel) THEN "not the shortest tour"
         ELSE "ok"
Finish == v = "asked" /\ (Fetched => line > Len(r.reply)) /\ Verdict(Final)
Next == Ask \/ Line \/ Finish
=============================================================================
