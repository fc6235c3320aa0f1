SPECIFICATION Spec
CONSTANTS Elems = {1, 2, 3, 4}
 MaxLen = 4
INVARIANTS Refines CacheOK NoDup
