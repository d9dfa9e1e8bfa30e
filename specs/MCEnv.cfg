SPECIFICATION Spec
CONSTANTS
  Slots = 2
  Keys = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
