SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Agree Bounded NotIdle
PROPERTY Stable
CHECK_DEADLOCK FALSE
