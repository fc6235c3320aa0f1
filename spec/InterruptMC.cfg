INIT Init
NEXT Next
CONSTANTS
 NC = 3
 VALS = {1, 3}
 CAPS = {0, 3, 5}
 LIMS = {0, 7}
INVARIANTS Partial Given Complete
