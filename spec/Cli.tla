-------------------------------- MODULE Cli --------------------------------
(* The command line as a machine: every problem file in turn is given to    *)
(* every selected heuristic in turn; each attempt has one outcome and gives *)
(* exactly one reported result; an interrupt reports what was salvaged and  *)
(* ends everything.  Also: which heuristics a name selects, and which       *)
(* problem files a path stands for.                                         *)
EXTENDS CVRP

\* ------------------------------------------------------------- outcomes
\* o.k: "sol" a plan | "none" nothing | "exc" failure | "int" interrupt, nothing
\* salvaged | "intsol" interrupt handing over a plan | "intls" plan, then an
\* interrupt during post-optimisation
Interrupts(o) == o.k \in {"int", "intsol", "intls"}
HasPlan(o)    == o.k \in {"sol", "intsol", "intls"}

\* attempts in order: k-th attempt over nf files and na heuristics
Attempt(na, k) == <<((k-1) \div na) + 1, ((k-1) % na) + 1>>
\* the attempts that are made when attempt k has outcome out[k]
Made(out) == IF \E k \in DOMAIN out : Interrupts(out[k])
             THEN CHOOSE k \in DOMAIN out : Interrupts(out[k]) /\ \A j \in 1..(k-1) : ~Interrupts(out[j])
             ELSE Len(out)

\* ------------------------------------------------------ names of heuristics
AllNames == <<"ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "mj", "pi", "mbsa", "cmt", "sn", "pn", "ty", "swp", "wh", "gm", "rfcs", "gap", "ptl", "lr3o">>
NotClassical == {"ps2o", "si", "pi", "sn", "pn", "swp"}
ClassicalNames == SelectSeq(AllNames, LAMBDA a: a \notin NotClassical)
Also == [ps |-> {"cw64-ps", "cw", "parallelsavings", "clarkewright"},
         gpl |-> {"ga67-ps", "ga67-ps|pi", "ga67-ps|lambda", "gaskellpi", "gaskelllambda"},
         ss |-> {"we64-ss", "sequentialsavings"},
         gps |-> {"pa88-ps", "generalizedsavings", "generalizedparallelsavings", "paessens"},
         ims |-> {"hp76-ps", "hp76-ps|ims", "suppression", "iterativemergesuppression", "mergesuppressionsavings"},
         ps2o |-> {"rt79-ps", "cawlip", "savingswith2opt"},
         si |-> {"ci", "cheapestinsertion", "sequentialinsertion", "mj76-si"},
         mj |-> {"molejameson", "molejamesoninsertion"},
         pi |-> {"parallelinsertion", "parallelcheapestinsertion"},
         mbsa |-> {"dv89-mbsa", "matching", "maximummatching", "mm", "desrochersverhoog"},
         cmt |-> {"cmt79-2p", "tp", "twophase", "cmt2p", "cmt2phase", "cmttwophase"},
         sn |-> {"nn", "snn"}, pn |-> {"pnn"}, ty |-> {"ty68-snn", "tyagi"}, swp |-> {"sweep"},
         wh |-> {"wh72-swls", "whs", "whswp", "wrenholliday", "wrenhollidaysweep"},
         gm |-> {"gm74-swri", "gms", "gmswp", "gilletmiller", "gilletmillersweep"},
         rfcs |-> {"be83-rfcs", "routefirstclustersecond", "beasley", "newtonthomas"},
         gap |-> {"fj81-gap", "fisherjaikumar"},
         ptl |-> {"fr76-ptl", "petal", "fosterryan"},
         lr3o |-> {"sg82-lr3opt", "lr3opt"}]
\* the heuristics one (lower case) name selects
Selects(name) == IF name = "all" THEN AllNames
                 ELSE IF name \in {"classical", "classic"} THEN ClassicalNames
                 ELSE IF name \in DOMAIN Also THEN <<name>>
                 ELSE IF \E a \in DOMAIN Also : name \in Also[a] THEN <<CHOOSE a \in DOMAIN Also : name \in Also[a]>>
                 ELSE <<>>
SelectsAll(names) == FoldLeft(LAMBDA acc, x: acc \o Selects(x), <<>>, names)
\* one name stands for one heuristic, except the two groups
NamesOK == \A a, b \in DOMAIN Also : a # b => (Also[a] \cap Also[b] = {} /\ a \notin Also[b])

\* ------------------------------------------------------ files behind a path
\* a file is [dir, ext, key]: key orders names naturally (digits as numbers)
KeyLess(a, b) == LexLess(a, b, 1)
InNaturalOrder(fs) == \A j, k \in DOMAIN fs : j < k => ~KeyLess(fs[k].key, fs[j].key)
\* all files of one directory, by type, each type in natural order
RECURSIVE Natural(_)
Natural(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : ~KeyLess(y.key, x.key) IN <<m>> \o Natural(S \ {m})
OfDir(S, dir) == LET of(e) == {f \in S : f.dir = dir /\ f.ext = e} IN Natural(of("vrp")) \o Natural(of("tsp")) \o Natural(of("pickle"))
=============================================================================
