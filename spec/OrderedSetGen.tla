--------------------------- MODULE OrderedSetGen ---------------------------
(* Every operation history of length DEPTH over three elements, written by  *)
(* TLC for replay into the real class.                                      *)
EXTENDS OrderedSet, Json, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
O(k, x, s) == [k |-> k, x |-> x, s |-> s]
Mutators == {O("add", x, <<>>) : x \in 1..3} \cup {O("del", x, <<>>) : x \in 1..3}
            \cup {O("diff", 0, s) : s \in {<<1>>, <<2, 3>>, <<3, 1, 3>>}}
Observers == {O("get", x, <<>>) : x \in {0, 1, -1}} \cup {O("iter", 0, <<>>)}
Starts == {<<>>, <<1>>, <<2, 1>>, <<3, 1, 2>>, <<1, 3, 1>>}
ASSUME JsonSerialize(IOEnv.OUT, <<SetToSeq(Starts), SetToSeq([1..Depth -> Mutators \cup Observers])>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
