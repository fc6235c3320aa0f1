INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2}
 DEM = {1, 2}
 CAPS = {0, 2, 6}
 LENS = {0, 5, 8}
INVARIANTS Together Plans
