SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 3}
  Kinds = {0}
  Vals = {1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY PopUndoesPush
CHECK_DEADLOCK FALSE
