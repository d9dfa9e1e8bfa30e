SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 3, 4}
  Pols = {0, 1, 2}
  Kinds = {0}
  Vals = {1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK RingOK
PROPERTY Fifo
CHECK_DEADLOCK FALSE
