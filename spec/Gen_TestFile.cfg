SPECIFICATION Spec
CONSTANTS MaxFrag = 3
 Export = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
