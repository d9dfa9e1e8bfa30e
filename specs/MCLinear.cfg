SPECIFICATION MSpec
CONSTANTS
  Apply <- AVApply
  Order <- AVOrder
  InitVal <- AVInit
  NT = 3
  Rounds = 2
VIEW MView
INVARIANT NothingLost
CHECK_DEADLOCK FALSE
