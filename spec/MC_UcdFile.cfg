SPECIFICATION Spec
CONSTANTS MaxFrag = 4
 Export = FALSE
INVARIANTS Laws
CHECK_DEADLOCK FALSE
