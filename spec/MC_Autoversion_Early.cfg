SPECIFICATION Spec
CONSTANTS Ranges <- Early
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
