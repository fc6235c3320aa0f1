---------------------------- MODULE ConstructMC ----------------------------
(* Design model of the growing construction heuristics, free runs on all    *)
(* matrices over a value set: runs never get stuck before every customer is *)
(* routed, every plan they end with is complete and feasible, and guiding   *)
(* the machine by a plan it reached reaches it again (a sound guide).       *)
EXTENDS Construct
CONSTANTS NC, VALS, ALG, SLOTS, SEEDS, CAPS, LIMS, LAMS
VARIABLES I, cf, goal
vars == <<cvars, I, cf, goal>>
Sym(v) == [a \in 1..NC+1 |-> [b \in 1..NC+1 |-> IF a = b THEN 0 ELSE v[{a, b}]]]
Edges == {e \in SUBSET (1..NC+1) : Cardinality(e) = 2}
Insts == {J \in {[n |-> NC, D |-> Sym(v), d |-> [k \in 1..NC+1 |-> k-1], C |-> c, L |-> l]
                  : v \in [Edges -> VALS], c \in CAPS, l \in LIMS} :
            \A c \in Customers(J) : RouteOK(J, <<c>>)}
Init == /\ I \in Insts
        /\ cf \in [alg : {ALG}, slots : SLOTS, seed : SEEDS, mk : BOOLEAN, lam : LAMS, mu : {0, 1}, q : {1}, endonly : BOOLEAN]
        /\ (ALG # "ins" => cf.mu = 0) /\ (ALG # "nn" => ~cf.endonly) /\ (ALG = "nn" => ~cf.mk)
        /\ goal = {} /\ CInit(I, cf, goal)
\* after a free run: once more, towards the plan it ended with
Again == ph = "done" /\ goal = {} /\ goal' = fin /\ UNCHANGED <<I, cf>>
         /\ slot' = [k \in 1..cf.slots |-> <<>>] /\ last' = [k \in 1..cf.slots |-> 0]
         /\ unr' = Customers(I) /\ fin' = {} /\ turn' = 1 /\ ph' = IF cf.alg = "ins" THEN "seed" ELSE "in"
Next == (CNext(I, cf, goal) /\ UNCHANGED <<I, cf, goal>>) \/ Again
AllRoutes == SetToSeq(fin) \o slot
Partition == ph # "done" => IsPermutationOf(AllStops(AllRoutes), Customers(I) \ unr)
Within == \A k \in DOMAIN slot : RouteOK(I, slot[k])
Result == ph = "done" => /\ Feasible(I, SetToSeq(fin))
                         /\ goal # {} => fin = goal
NoStuck == ph # "done" /\ goal = {} => ENABLED CNext(I, cf, goal)
=============================================================================
