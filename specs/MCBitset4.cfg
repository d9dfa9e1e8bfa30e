SPECIFICATION Spec
CONSTANTS
  Cfgs <- CfgsFour
  Two = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
