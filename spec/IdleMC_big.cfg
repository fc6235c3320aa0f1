INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2}
 DEM = {0, 1, 2}
 CAPS = {0, 2, 3, 6, 9}
 LENS = {0, 4, 6, 8, 20}
INVARIANTS Together Plans
