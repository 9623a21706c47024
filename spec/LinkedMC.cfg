CONSTANTS Keys = {1, 2, 3, 4}
 Its = {1, 2}
 Depth = 0
 Hist = FALSE
SPECIFICATION Spec
INVARIANTS Inv NoDup
CHECK_DEADLOCK FALSE
