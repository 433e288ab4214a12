SPECIFICATION Spec
CONSTANTS Ranges <- Overlap
 MaxRelease = 40
INVARIANT Right
CHECK_DEADLOCK FALSE
