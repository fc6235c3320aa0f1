INIT Init
NEXT Next
CONSTANTS NC = 3
 VALS = {1, 3}
INVARIANTS Kept Bound
