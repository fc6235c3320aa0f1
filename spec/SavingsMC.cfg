INIT Init
NEXT Next
CONSTANTS
 NC = 3
 VALS = {1, 2, 3}
 FN = "cw"
 CAPS = {0, 3, 5}
 LIMS = {0, 6, 8}
INVARIANTS Complete Within Result Cheaper
