INIT Init
NEXT Next
CONSTANTS NC = 4
 VALS = {1, 3}
 CAPS = {0, 4}
 LIMS = {0, 7}
INVARIANTS Prefix_ Circle
