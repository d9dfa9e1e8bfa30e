SPECIFICATION TSpec
POSTCONDITION Accepted
INVARIANTS TypeOK RingOK
CHECK_DEADLOCK FALSE
