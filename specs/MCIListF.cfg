SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2}
  Pols = {0, 1}
  Mode = 0
  N = 4
  Lists = {1, 2}
  Dirt = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Mirror
PROPERTY Clean
CHECK_DEADLOCK FALSE
