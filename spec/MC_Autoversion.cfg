SPECIFICATION Spec
CONSTANTS Ranges <- Code
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
