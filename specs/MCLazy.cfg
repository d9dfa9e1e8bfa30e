SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2, 3, 4, 5, 6}
  MaxCount = 3
VIEW View
ACTION_CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES NeverEarly Latch
CHECK_DEADLOCK FALSE
