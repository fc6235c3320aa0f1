\* every metric instance with three customers and distances 1..3
CONSTANTS NC = 3  VALS = {1, 2, 3}  DEMS = {1, 2}  CAPS = {0, 3}  LIMS = {0, 6, 8}
INIT Init
NEXT Next
INVARIANTS Routes_OK NotDearer NothingLeft Explained
