SPECIFICATION MSpec
CONSTANT Depth = 6
INVARIANTS Alive OneOwner NoStray TwiceIsBad
CHECK_DEADLOCK FALSE
