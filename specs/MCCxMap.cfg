SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 3}
  Kinds = {0}
  KeySet = {0, 1, 2, 3}
  Vals = {0, 1}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY ReadBack
CHECK_DEADLOCK FALSE
