CONSTANTS NC = 3
 VALS = {1, 3}
 CAPS = {2, 3}
 SEEDS = {"farthest", "first"}
 REPS = {0, 1, 2}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
