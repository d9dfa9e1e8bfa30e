SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2, 3, 4, 5, 6}
  Vals = {0, 1, 5}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Order
CHECK_DEADLOCK FALSE
