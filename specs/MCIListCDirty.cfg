SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Pols = {0, 1}
  Mode = 1
  N = 2
  Lists = {1, 2}
  Dirt = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Mirror
PROPERTY Clean
CHECK_DEADLOCK FALSE
