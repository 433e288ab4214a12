SPECIFICATION Spec
CONSTANTS Variant = "silent"
 MaxRuns = 3
INVARIANTS SameMeaning SameOutput
CHECK_DEADLOCK FALSE
