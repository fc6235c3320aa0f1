INIT Init
NEXT Next
CONSTANTS
 NC = 3
 VALS = {1, 2, 3}
 ALG = "ss"
 SLOTS = {1}
 SEEDS = {"farthest", "closest"}
 CAPS = {0, 3, 5}
 LIMS = {0, 7}
 LAMS = {0}
INVARIANTS Partition Within Result NoStuck
