INIT Init
NEXT Next
CONSTANTS
 NC = 3
 VALS = {1, 3}
 ALG = "nn"
 SLOTS = {1, 2}
 SEEDS = {"closest", "farthest", "nearest"}
 CAPS = {0, 3, 5}
 LIMS = {0, 7}
 LAMS = {0}
INVARIANTS Partition Within Result NoStuck
