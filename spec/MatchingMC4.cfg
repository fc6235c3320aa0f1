\* every metric instance with four customers and distances 1..2
CONSTANTS NC = 4  VALS = {1, 2}  DEMS = {1}  CAPS = {0, 2, 3}  LIMS = {0, 6}
INIT Init
NEXT Next
INVARIANTS Routes_OK NotDearer NothingLeft Explained
