SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 MaxIno = 5
 MaxLook = 1
 MaxSize = 2
 Depth = 1
 Bs = 1
 Timed = FALSE
 Ops = {"lookup","mknod","mkdir","create","write","setattr","unlink","rmdir","rename","link","forget","rmtree","locktree"}
INVARIANT Inv
PROPERTY LockedStable
CHECK_DEADLOCK FALSE
VIEW View
