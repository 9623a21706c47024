CONSTANTS Tasks = {1, 2, 3, 4}
 Keys = {"x", "y"}
 Depth = 0
 Hist = FALSE
SPECIFICATION Spec
INVARIANTS Mutex NoLostWakeup
PROPERTY Progress
CHECK_DEADLOCK FALSE
