SPECIFICATION Spec
CONSTANTS
  Cfgs <- CfgsNine
  Two = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
