------------------------------- MODULE Tsplib -------------------------------
(* The TSPLIB subset of verypy/cvrp_io.py: which cell of the matrix the k-th *)
(* number of an explicit section belongs to, the distance functions in       *)
(* integer arithmetic, the depot permutation, side constraints and solution  *)
(* files.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- explicit layouts: the cells in the order in which they are written
\* (1-based rows and columns of an m x m matrix)
RowCells(m, row(_)) == LET RECURSIVE G(_)
                           G(i) == IF i > m THEN <<>> ELSE row(i) \o G(i+1) IN G(1)
Cells(fmt, m) ==
  CASE fmt = "FULL_MATRIX"    -> RowCells(m, LAMBDA i : [k \in 1..m |-> <<i, k>>])
    [] fmt = "LOWER_ROW"      -> RowCells(m, LAMBDA i : [k \in 1..(i-1) |-> <<i, k>>])
    [] fmt = "LOWER_DIAG_ROW" -> RowCells(m, LAMBDA i : [k \in 1..i |-> <<i, k>>])
    [] fmt = "UPPER_ROW"      -> RowCells(m, LAMBDA i : [k \in 1..(m-i) |-> <<i, i+k>>])
    [] fmt = "UPPER_DIAG_ROW" -> RowCells(m, LAMBDA i : [k \in 1..(m-i+1) |-> <<i, i+k-1>>])
    [] fmt = "LOWER_COL"      -> RowCells(m, LAMBDA i : [k \in 1..(m-i) |-> <<i+k, i>>])   \* column i below the diagonal
Formats == {"FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW", "UPPER_ROW", "UPPER_DIAG_ROW", "LOWER_COL"}
Count(fmt, m) == Len(Cells(fmt, m))
\* the matrix a complete section stands for (symmetric; unlisted diagonal 0)
Matrix(fmt, m, nums) ==
  LET cs == Cells(fmt, m)
      At(i, j) == {k \in DOMAIN cs : cs[k] = <<i, j>>} IN
  [i \in 1..m |-> [j \in 1..m |->
     IF At(i, j) # {} THEN nums[CHOOSE k \in At(i, j) : TRUE]
     ELSE IF At(j, i) # {} THEN nums[CHOOSE k \in At(j, i) : TRUE] ELSE 0]]
ListedSymmetric(fmt, m, nums) == fmt # "FULL_MATRIX" \/
  \A i, j \in 1..m : nums[(i-1)*m+j] = nums[(j-1)*m+i]

\* ---- distance functions: p, q integer points in units of 1/cs
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
Sq(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Pos(x) == IF x < 0 THEN 0 ELSE x
\* x (an integer in units of 1/xs) is the distance of p and q
IsDistance(type, p, q, cs, x, xs) ==
  LET s == Sq(p, q) IN
  /\ 0 <= x /\ x <= 1000000
  /\ type = "GEO" \/ x*cs <= xs*(Abs(p[1]-q[1])+Abs(p[2]-q[2])+cs)
  /\ CASE type = "EUC_2D"   -> xs = 1 /\ Pos(2*x-1)*Pos(2*x-1)*cs*cs <= 4*s /\ 4*s <= (2*x+1)*(2*x+1)*cs*cs
       [] type = "CEIL_2D"  -> xs = 1 /\ x*x*cs*cs >= s /\ (x = 0 \/ (x-1)*(x-1)*cs*cs < s)
       [] type = "FLOOR_2D" -> xs = 1 /\ x*x*cs*cs <= s /\ (x+1)*(x+1)*cs*cs > s
       [] type = "MAN_2D"   -> x*cs = xs*(Abs(p[1]-q[1])+Abs(p[2]-q[2]))
       [] type = "MAX_2D"   -> x*cs = xs*MaxOf(Abs(p[1]-q[1]), Abs(p[2]-q[2]))
       [] type = "EXACT_2D" -> Pos(x-1)*Pos(x-1)*cs*cs <= xs*xs*s /\ xs*xs*s <= (x+1)*(x+1)*cs*cs   \* to 1/xs
       [] type = "ATT"      -> xs = 1 /\ 10*x*x*cs*cs >= s /\ (x = 0 \/ 10*(x-1)*(x-1)*cs*cs < s)   \* round up of sqrt(s/10)
       [] type = "GEO"      ->  \* on the equator or on one meridian, coordinates in minutes of arc
         LET m == Abs(p[1]-q[1]) + Abs(p[2]-q[2])
             lo == (m*185539) \div 100000   \* 1.855396.. km per minute
             hi == (m*185540) \div 100000
         IN xs = 1 /\ x \in (lo+1)..(hi+1)

\* ---- node dep (1-based file position) becomes node 1, the others keep their order
PermAt(dep, k) == IF k = 1 THEN dep ELSE IF k <= dep THEN k-1 ELSE k
Permute(dep, s) == [k \in DOMAIN s |-> s[PermAt(dep, k)]]
PermuteM(dep, M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> M[PermAt(dep, i)][PermAt(dep, j)]]]

\* ---- plans as solution files and as signed lines
RECURSIVE SplitAt0(_, _)
SplitAt0(t, cur) == IF t = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                    ELSE IF t[1] = 0 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitAt0(Tail(t), <<>>)
                    ELSE SplitAt0(Tail(t), Append(cur, t[1]))
RoutesOf(t) == SplitAt0(t, <<>>)
RECURSIVE Join(_)
Join(rs) == IF rs = <<>> THEN <<0>> ELSE Join(SubSeq(rs, 1, Len(rs)-1)) \o rs[Len(rs)] \o <<0>>
Signed(r) == [k \in DOMAIN r |-> IF k = 1 THEN -r[1] ELSE r[k]]
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE rs[1] \o Flat(Tail(rs))
MaxIn(s) == CHOOSE x \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : s[k] <= x
SignedLine(t) == <<MaxIn(t)+1>> \o Flat([k \in DOMAIN RoutesOf(t) |-> Signed(RoutesOf(t)[k])]) \o <<0>>
=============================================================================
