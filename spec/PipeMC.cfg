CONSTANTS NJobs = 4
 NWorkers = 3
 Buffer = 1
 CanFail = TRUE
SPECIFICATION Spec
INVARIANTS Once Complete NoneRunning
PROPERTIES NoStartAfterFailure Ends
CHECK_DEADLOCK FALSE
