SPECIFICATION Spec
CONSTANT Shift = 8
INVARIANTS Inv All
CHECK_DEADLOCK FALSE
