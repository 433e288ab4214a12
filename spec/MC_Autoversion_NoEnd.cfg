SPECIFICATION Spec
CONSTANTS Ranges <- NoEnd
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
