SPECIFICATION FSpec
CONSTANT MeaningOf <- Meaning
INVARIANT Allowed
CHECK_DEADLOCK FALSE
