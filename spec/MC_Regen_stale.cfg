SPECIFICATION Spec
CONSTANTS Variant = "stale"
 MaxRuns = 3
INVARIANTS SameMeaning SameOutput
CHECK_DEADLOCK FALSE
