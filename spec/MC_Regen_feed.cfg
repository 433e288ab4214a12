SPECIFICATION Spec
CONSTANTS Variant = "feed"
 MaxRuns = 3
INVARIANTS SameMeaning SameOutput
CHECK_DEADLOCK FALSE
