SPECIFICATION Spec
CONSTANTS
 NSET = 3
 MAXK = 3
 MAXF = 3
INVARIANTS NotWorse OneOfThem IsFold Order
PROPERTY Monotone
