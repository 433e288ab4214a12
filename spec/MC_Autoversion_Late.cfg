SPECIFICATION Spec
CONSTANTS Ranges <- Late
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
