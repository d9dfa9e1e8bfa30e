SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 3, 4}
  Kinds = {0}
  Keys = {0, 1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY Truthful
CHECK_DEADLOCK FALSE
