\* every instance with four customers and distances 1 or 3; every collection of routes of three is in PartitionMC.cfg
CONSTANTS NC = 4  VALS = {1, 3}  DEMS = {1, 2}  CAPS = {0, 2, 3}  COSTS = {0, 2}
INIT Init
NEXT Next
INVARIANTS TourOK FewestOK CoverOK
