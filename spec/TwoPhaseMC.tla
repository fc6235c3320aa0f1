----------------------------- MODULE TwoPhaseMC ----------------------------
(* All instances within small bounds: phase one always ends with a complete *)
(* plan whose routes hold one seed each and respect the capacity; phase two *)
(* never takes more routes, and if it ends with a plan it is complete too.  *)
EXTENDS TwoPhase
CONSTANTS NC, VALS, CAPS, SEEDS, REPS
VARIABLES D, d, C, c
vars == <<wvars, D, d, C, c>>
Ends == {p \in (1..NC+1) \X (1..NC+1) : p[1] < p[2]}
Mat(f) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE f[IF a < b THEN <<a, b>> ELSE <<b, a>>]]]
I == [n |-> NC, D |-> D, d |-> d, C |-> C, L |-> 0]
Init == /\ D \in {Mat(f) : f \in [Ends -> VALS]} /\ C \in CAPS
        /\ d \in {[x \in 1..NC+1 |-> IF x = 1 THEN 0 ELSE f[x-1]] : f \in [1..NC -> 1..2]} /\ \A x \in 1..NC : d[x+1] <= C
        /\ c \in {[seed |-> s, lam |-> 2, mu |-> 1, q |-> 1, most |-> m, rep |-> p] : s \in SEEDS, m \in BOOLEAN, p \in REPS}
        /\ WInit([n |-> NC])
Next == WNext(I, c, LAMBDA k, x: TRUE) /\ UNCHANGED <<D, d, C, c>>
Load(S) == FoldSet(LAMBDA y, a: a + d[y+1], 0, S)
Fits == \A k \in DOMAIN rts : Load(rts[k]) <= C
Disjoint == /\ \A a, b \in DOMAIN rts : a # b => rts[a] \cap rts[b] = {}
            /\ \A a \in DOMAIN rts : rts[a] \cap unr = {} /\ seeds[a] \in rts[a]
            /\ UNION Range(rts) \cup unr = 1..NC
One == ph \in {"turn", "fill2", "built", "failed"} => UNION p1 = 1..NC /\ Cardinality(p1) = Len(seeds) /\ \A S \in p1 : Load(S) <= C
Two == ph = "built" => unr = {} /\ Cardinality(Range(rts)) = Len(seeds)
\* a route of phase one closes only when nobody left fits
Closed1 == ph = "open" => \A k \in DOMAIN rts : \A x \in unr : Load(rts[k]) + d[x+1] > C
\* the last pass of a failed phase two found no room for a customer it offered; with rep > 0 nothing was inserted in it
Failed == ph = "failed" /\ c.rep > 0 => ~ins
Inv == Fits /\ Disjoint /\ One /\ Two /\ Closed1 /\ Failed
Progress == [][ph' # ph \/ Cardinality(unr') <= Cardinality(unr) \/ queue' # queue]_vars
=============================================================================
