SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2, 3, 4, 5}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
