SPECIFICATION Spec
CONSTANTS
  KNs = {1, 2, 3}
  VNs = {1, 2}
  Kinds = {0}
  KeySet = {0, 1, 2}
  Vals = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTY Local
CHECK_DEADLOCK FALSE
