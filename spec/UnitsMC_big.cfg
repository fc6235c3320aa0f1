INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2, 3}
 DEM = {0, 1, 2}
 CAPS = {0, 3, 5}
 LENS = {0, 5, 7}
 FD = {1, 3}
 FQ = {1, 2}
INVARIANTS Together SamePicks Plans
