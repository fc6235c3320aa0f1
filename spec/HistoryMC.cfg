INIT Init
NEXT Next
CONSTANTS
 CALLS = {"a", "b"}
 WORLDS = {"w1", "w2", "w3"}
 RESULTS = {"x", "y"}
 LEN = 4
INVARIANTS Exact Coarser
