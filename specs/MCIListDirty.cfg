SPECIFICATION Spec
CONSTANTS
  Kinds = {0}
  Pols = {1}
  Mode = 0
  N = 3
  Lists = {1, 2}
  Dirt = {0, 1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Mirror
PROPERTY Clean
CHECK_DEADLOCK FALSE
