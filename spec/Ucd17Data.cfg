SPECIFICATION DSpec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
