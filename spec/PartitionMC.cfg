\* every instance with three customers; every collection of routes of three customers
CONSTANTS NC = 3  VALS = {0, 1, 3}  DEMS = {1, 2}  CAPS = {0, 2, 3}  COSTS = {0, 1, 2, 4}
INIT Init
NEXT Next
INVARIANTS TourOK FewestOK CoverOK
