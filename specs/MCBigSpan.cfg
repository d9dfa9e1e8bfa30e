SPECIFICATION Spec
CONSTANTS
  Asked = {"span"}
  Caps = {1, 2, 3}
  Top = 5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY Balanced
CHECK_DEADLOCK FALSE
