SPECIFICATION TSpec
INVARIANT Allowed
CHECK_DEADLOCK FALSE
