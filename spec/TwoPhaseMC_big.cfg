CONSTANTS NC = 4
 VALS = {1, 3}
 CAPS = {2}
 SEEDS = {"farthest"}
 REPS = {1, 2}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
