SPECIFICATION TSpec
CONSTANTS
  Apply <- ABApply
  Order <- ABOrder
  InitVal <- ABInit
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
