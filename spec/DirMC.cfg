SPECIFICATION Spec
CONSTANTS Name = {a, b, c}
 MaxOps = 7
INVARIANTS ExactlyOnce Complete
CHECK_DEADLOCK FALSE
