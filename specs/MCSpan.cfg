SPECIFICATION Spec
VIEW VView
ACTION_CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
