---------------------------- MODULE OrderedSet ----------------------------
(* The ordered set of verypy/util.py as a machine over the sequence of its  *)
(* members in order of first insertion since last removal.  Three uses:     *)
(*  - OrderedSetGen.cfg: TLC writes every operation history of a bound,     *)
(*  - OrderedSetTrace: TLC replays recorded histories of the real class,    *)
(*  - OrderedSetMC: a model of the implementation (dictionary plus cached   *)
(*    index list) refines this machine.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Mem(s, x) == \E k \in DOMAIN s : s[k] = x
Drop(s, X) == SelectSeq(s, LAMBDA y : y \notin X)
SeqRange(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Drop(Dedup(Tail(s)), {s[1]})
Err == <<-1>>
\* index i (0-based, negative counts from the end) of s, or Err
Get(s, i) == IF i >= 0 /\ i < Len(s) THEN <<s[i+1]>>
             ELSE IF i < 0 /\ -i <= Len(s) THEN <<s[Len(s)+i+1]>> ELSE Err
\* what operation o returns in state s, and the state after
Ret(s, o) == CASE o.k = "get"  -> Get(s, o.x)
               [] o.k = "iter" -> s
               [] o.k = "len"  -> <<Len(s)>>
               [] o.k = "in"   -> <<IF Mem(s, o.x) THEN 1 ELSE 0>>
               [] o.k = "del"  -> IF Mem(s, o.x) THEN <<>> ELSE Err
               [] OTHER -> <<>>
After(s, o) == CASE o.k = "add"  -> IF Mem(s, o.x) THEN s ELSE Append(s, o.x)
                 [] o.k = "del"  -> Drop(s, {o.x})
                 [] o.k = "diff" -> Drop(s, SeqRange(o.s))
                 [] OTHER -> s
RECURSIVE Run(_, _, _)
Run(s, ops, k) == IF k = 0 THEN s ELSE After(Run(s, ops, k-1), ops[k])
\* the first operation whose result is not that of the machine (0: none)
RECURSIVE FirstBad(_, _, _, _)
FirstBad(s, ops, rets, k) ==
  IF k > Len(ops) THEN 0
  ELSE IF Ret(s, ops[k]) # rets[k] THEN k
  ELSE FirstBad(After(s, ops[k]), ops, rets, k+1)
=============================================================================
