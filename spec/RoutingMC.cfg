INIT Init
NEXT Next
CONSTANTS NC = 3
 VALS = {1, 2}
 CAPS = {0, 3, 5}
 LIMS = {0, 3, 5}
INVARIANTS Sound Exact Encodings
