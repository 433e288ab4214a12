SPECIFICATION TSpec
CONSTANT MeaningOf <- Meaning
INVARIANT Allowed
CHECK_DEADLOCK FALSE
