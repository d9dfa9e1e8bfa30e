SPECIFICATION TSpec
POSTCONDITION Accepted
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
