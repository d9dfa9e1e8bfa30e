SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
