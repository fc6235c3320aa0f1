------------------------------ MODULE TsplibMC ------------------------------
(* Design model of the matrix cursor: for every layout and size the cursor   *)
(* of the reader (a pair that is advanced by one step per number) writes      *)
(* exactly the cells of the layout, in order, and only stops after the last. *)
EXTENDS Tsplib
CONSTANT MaxM
VARIABLES fmt, m, i, j, k
vars == <<fmt, m, i, j, k>>
Init == /\ fmt \in Formats /\ m \in 1..MaxM /\ k = 0
        /\ i = (IF fmt \in {"UPPER_ROW", "LOWER_COL"} THEN 1 ELSE 0)
        /\ j = (IF fmt = "LOWER_ROW" THEN 1 ELSE 0)
\* one number read; i, j 0-based as in the reader
Read == /\ k < Count(fmt, m) /\ k' = k+1 /\ UNCHANGED <<fmt, m>>
        /\ CASE fmt = "LOWER_ROW"      -> IF i+1 = j THEN i' = 0 /\ j' = j+1 ELSE i' = i+1 /\ j' = j
             [] fmt = "LOWER_DIAG_ROW" -> IF i+1 = j+1 THEN i' = 0 /\ j' = j+1 ELSE i' = i+1 /\ j' = j
             [] fmt = "FULL_MATRIX"    -> IF i+1 = m THEN i' = 0 /\ j' = j+1 ELSE i' = i+1 /\ j' = j
             [] fmt = "UPPER_DIAG_ROW" -> IF i+1 = m THEN j' = j+1 /\ i' = j+1 ELSE i' = i+1 /\ j' = j
             [] OTHER                  -> IF i+1 = m THEN j' = j+1 /\ i' = j+2 ELSE i' = i+1 /\ j' = j
Next == Read
Spec == Init /\ [][Next]_vars
\* the cell the next number goes to is the one of the layout (up to symmetry)
CursorOK == k < Count(fmt, m) =>
  LET c == Cells(fmt, m)[k+1] IN c = <<i+1, j+1>> \/ c = <<j+1, i+1>>
\* the reader's end test holds exactly after the last number
EndTest == \/ fmt \in {"FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW"} /\ i = 0 /\ j = m
           \/ fmt \in {"UPPER_ROW", "LOWER_COL"} /\ i = m /\ j = m-1
           \/ fmt = "UPPER_DIAG_ROW" /\ i = m /\ j = m
EndOK == m >= 2 => (EndTest <=> k = Count(fmt, m))
\* every unordered pair is listed by every layout
Complete == \A a, b \in 1..m : a # b => \E c \in {Cells(fmt, m)[x] : x \in 1..Count(fmt, m)} : c \in {<<a, b>>, <<b, a>>}
=============================================================================
