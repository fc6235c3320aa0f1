INIT Init
NEXT Next
CONSTANTS NC = 3
 SLOTS = 2
 OPS = {"relocate", "1point", "2optstar"}
 VALS = {1, 2}
 CAPS = {0, 2}
INVARIANTS Memo Plan Optimal
