SPECIFICATION Spec
CONSTANT Inst = 1
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY Once
CHECK_DEADLOCK FALSE
