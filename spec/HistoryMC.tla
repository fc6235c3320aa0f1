------------------------------ MODULE HistoryMC ------------------------------
(* The memo rule is exact: a history is accepted iff some function from     *)
(* calls and the caller's data at that time to results explains all of it;  *)
(* interrupted calls say nothing, and the caller may edit its data.  A      *)
(* library that keeps what it computed under a key coarser than the data    *)
(* (Key) is refused as soon as two data with equal keys give different      *)
(* results and are used one after the other.                                *)
EXTENDS History, SequencesExt
CONSTANTS CALLS, WORLDS, RESULTS, LEN
VARIABLES memo, hist, ok, world, cache, truth
vars == <<memo, hist, ok, world, cache, truth>>
Args == CALLS \X WORLDS
Key(w) == IF w = "w3" THEN "k2" ELSE "k1"          \* w1 and w2 look alike to the careless cache
Init == /\ memo = [a \in Args |-> Unknown] /\ hist = <<>> /\ ok = TRUE /\ world \in WORLDS
        /\ cache = [k \in CALLS \X {"k1", "k2"} |-> Unknown] /\ truth = TRUE
Call == \E c \in CALLS, res \in RESULTS :
  /\ Len(hist) < LEN /\ hist' = Append(hist, <<<<c, world>>, res>>)
  /\ ok' = (ok /\ CanReturn(memo, <<c, world>>, res)) /\ memo' = Learn(memo, <<c, world>>, res)
  \* would the careless cache have explained this history as well?
  /\ LET k == <<c, Key(world)>> IN /\ truth' = (truth /\ cache[k] \in {Unknown, res}) /\ cache' = [cache EXCEPT ![k] = IF @ = Unknown THEN res ELSE @]
  /\ UNCHANGED world
Interrupted == \E c \in CALLS : Len(hist) < LEN /\ hist' = Append(hist, <<<<c, world>>, Unknown>>) /\ UNCHANGED <<memo, ok, world, cache, truth>>
Edit == Len(hist) < LEN /\ world' \in WORLDS \ {world} /\ UNCHANGED <<memo, hist, ok, cache, truth>>
Next == Call \/ Interrupted \/ Edit
Exact == ok <=> \E F \in [Args -> RESULTS] : \A k \in DOMAIN hist : hist[k][2] # Unknown => hist[k][2] = F[hist[k][1]]
\* whatever a coarser function explains is explained (so the rule is never too strict)
Coarser == truth => ok
=============================================================================
