-------------------------- MODULE OrderedSetTrace --------------------------
(* Recorded histories of the real class against the machine.                *)
EXTENDS OrderedSet, Json, IOUtils, TLC
Trace == JsonDeserialize(IOEnv.VTRACE)
VARIABLES tid, v
Clause(q) ==
  IF q.out # "ret" THEN "failed with an error"
  ELSE IF Len(q.rets) # Len(q.ops) THEN "malformed result"
  ELSE LET b == FirstBad(Dedup(q.start), q.ops, q.rets, 1) IN
    IF b = 0 THEN "ok"
    ELSE CASE q.ops[b].k = "get"  -> "indexing is not in insertion order"
           [] q.ops[b].k = "iter" -> "iteration is not in insertion order"
           [] q.ops[b].k = "len"  -> "wrong length"
           [] q.ops[b].k = "in"   -> "wrong membership"
           [] q.ops[b].k = "del"  -> "removal fails or succeeds wrongly"
           [] OTHER -> "operation failed"
Init == tid \in 1..Len(Trace) /\ v = ""
Next == /\ v = ""
        /\ LET c == Clause(Trace[tid]) IN
             /\ v' = c
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, c>>)
        /\ UNCHANGED tid
=============================================================================
