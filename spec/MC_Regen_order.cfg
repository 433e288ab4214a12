SPECIFICATION Spec
CONSTANTS Variant = "order"
 MaxRuns = 3
INVARIANTS SameMeaning SameOutput
CHECK_DEADLOCK FALSE
