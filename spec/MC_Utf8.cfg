SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Streaming Flushed TypeOK Tiles Whole
CHECK_DEADLOCK FALSE
