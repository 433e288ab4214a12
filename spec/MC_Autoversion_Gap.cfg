SPECIFICATION Spec
CONSTANTS Ranges <- Gap
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
