SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Pols = {0, 1}
  Mode = 1
  N = 3
  Lists = {1}
  Dirt = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Mirror
PROPERTY Clean
CHECK_DEADLOCK FALSE
