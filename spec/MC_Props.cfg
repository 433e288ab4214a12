SPECIFICATION Spec
CONSTANT Shift = 16
INVARIANTS Inv All
CHECK_DEADLOCK FALSE
