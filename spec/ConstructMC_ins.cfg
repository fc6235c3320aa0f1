INIT Init
NEXT Next
CONSTANTS
 NC = 3
 VALS = {1, 3}
 ALG = "ins"
 SLOTS = {1, 2}
 SEEDS = {"farthest", "closest"}
 CAPS = {0, 3, 5}
 LIMS = {0, 7}
 LAMS = {0, 1}
INVARIANTS Partition Within Result NoStuck
