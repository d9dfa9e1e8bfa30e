SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Numbering
CHECK_DEADLOCK FALSE
