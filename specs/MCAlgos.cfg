SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Lockstep
CHECK_DEADLOCK FALSE
