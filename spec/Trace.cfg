SPECIFICATION Spec
INVARIANT TypeOK
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
