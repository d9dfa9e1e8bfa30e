SPECIFICATION TSpec
POSTCONDITION Accepted
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = 4
  Keys = 9
