SPECIFICATION Spec
CONSTANTS Variant = "code"
 MaxRuns = 3
INVARIANTS SameMeaning SameOutput
CHECK_DEADLOCK FALSE
