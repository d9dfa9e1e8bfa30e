SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
