------------------------------- MODULE History -------------------------------
(* A library of pure functions seen from outside: a caller owns objects     *)
(* (their contents are world), makes calls in any order and keeps the       *)
(* results.  memo is what each distinct call returned the first time.       *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC
Unknown == "?"
\* may call c return res now, and what is known afterwards
CanReturn(memo, c, res) == memo[c] = Unknown \/ memo[c] = res
Learn(memo, c, res) == [memo EXCEPT ![c] = IF @ = Unknown THEN res ELSE @]
=============================================================================
