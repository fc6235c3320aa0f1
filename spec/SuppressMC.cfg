INIT Init
NEXT Next
CONSTANTS
 NC = 3
 DEP = {2, 3, 5}
 VALS = {1, 2, 4, 6}
 CAPS = {0, 2}
 LP = 4
INVARIANTS Complete Growing
PROPERTY Step
