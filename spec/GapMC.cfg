INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2, 3}
 DEM = {1, 2}
 CAPS = {3}
 K0 = 2
INVARIANTS Lower Free Reach
