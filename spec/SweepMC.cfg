INIT Init
NEXT Next
CONSTANTS NC = 4
 VALS = {1, 2}
 CAPS = {0, 4}
 LIMS = {0, 5}
INVARIANTS IsRun Unique Mirror
