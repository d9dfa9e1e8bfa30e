SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
