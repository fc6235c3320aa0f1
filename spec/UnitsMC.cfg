INIT Init
NEXT Next
CONSTANTS
 NC = 3
 W = {1, 2}
 DEM = {1, 2}
 CAPS = {0, 3}
 LENS = {0, 5}
 FD = {1, 3}
 FQ = {1, 2}
INVARIANTS Together SamePicks Plans
