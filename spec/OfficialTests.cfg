SPECIFICATION OSpec
CONSTANTS
  ClassOf <- Class
  ClassesIn <- ClassesOf
INVARIANT Conforms
CHECK_DEADLOCK FALSE
