SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2}
  Vals = {1, 2, 3}
  Fuses = {1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY Kept
CHECK_DEADLOCK FALSE
