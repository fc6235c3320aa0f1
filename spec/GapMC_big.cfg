INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2, 3, 4}
 DEM = {1, 2}
 CAPS = {0, 2, 3}
 K0 = 3
INVARIANTS Lower Free Reach
