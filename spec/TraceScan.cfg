SPECIFICATION TSpec
CONSTANTS
  Answers <- SplitAnswers
  ClassOf <- Class
  ClassesIn <- ClassesOf
  Inputs <- AllInputs
  MaxRead = 100000000
  EmptyReads = TRUE
INVARIANT Allowed
CHECK_DEADLOCK FALSE
