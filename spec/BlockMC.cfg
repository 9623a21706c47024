CONSTANTS Blocks = {1, 2}
 Vals = {1, 2}
 MaxObj = 4
 MaxOps = 6
 MaxFail = 1
 Wait = TRUE
SPECIFICATION Spec
INVARIANTS NoLoss CleanIsStored RefExact DelSafe Unique NoLeak
CHECK_DEADLOCK FALSE
