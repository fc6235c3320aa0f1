INIT Init
NEXT Next
CONSTANTS
 NC = 4
 DEP = {3, 5}
 VALS = {1, 2, 4, 5, 6, 7}
 CAPS = {0, 2}
 LP = 0
INVARIANTS Complete Growing
PROPERTY Step
