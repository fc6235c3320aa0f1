---------------------------- MODULE OrderedSetMC ----------------------------
(* The implementation's design - an insertion-ordered dictionary plus an    *)
(* index list that is dropped by removals, appended to by additions of      *)
(* absent elements and rebuilt on demand - refines the ordered set.         *)
EXTENDS OrderedSet, TLC
CONSTANTS Elems, MaxLen
None == <<0>>
VARIABLES ods, keys, abs, ret, want
vars == <<ods, keys, abs, ret, want>>
Init == ods = <<>> /\ keys = None /\ abs = <<>> /\ ret = <<>> /\ want = <<>>
Op(o) == /\ abs' = After(abs, o) /\ want' = Ret(abs, o)
Add(x) == /\ Op([k |-> "add", x |-> x, s |-> <<>>]) /\ ret' = <<>>
          /\ IF Mem(ods, x) THEN UNCHANGED <<ods, keys>>
             ELSE ods' = Append(ods, x) /\ keys' = IF keys = None THEN None ELSE Append(keys, x)
Del(x) == /\ Op([k |-> "del", x |-> x, s |-> <<>>])
          /\ IF Mem(ods, x) THEN ods' = Drop(ods, {x}) /\ keys' = None /\ ret' = <<>>
             ELSE ret' = Err /\ UNCHANGED <<ods, keys>>
Diff(X) == /\ Op([k |-> "diff", x |-> 0, s |-> SetToSeq(X)]) /\ ods' = Drop(ods, X) /\ keys' = None /\ ret' = <<>>
GetI(i) == /\ Op([k |-> "get", x |-> i, s |-> <<>>])
           /\ keys' = (IF keys = None THEN ods ELSE keys) /\ ret' = Get(keys', i) /\ UNCHANGED ods
IterA == Op([k |-> "iter", x |-> 0, s |-> <<>>]) /\ ret' = ods /\ UNCHANGED <<ods, keys>>
Next == \/ \E x \in Elems : Add(x) \/ Del(x)
        \/ \E X \in SUBSET Elems : Diff(X)
        \/ \E i \in (-Cardinality(Elems)-1)..(Cardinality(Elems)+1) : GetI(i)
        \/ IterA
Spec == Init /\ [][Next]_vars
Refines == ods = abs /\ ret = want
CacheOK == keys = None \/ keys = ods
NoDup == Cardinality(SeqRange(ods)) = Len(ods)
=============================================================================
