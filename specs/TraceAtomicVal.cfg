SPECIFICATION TSpec
CONSTANTS
  Apply <- AVApply
  Order <- AVOrder
  InitVal <- AVInit
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
