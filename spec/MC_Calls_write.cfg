SPECIFICATION Spec
CONSTANTS Callers = {1, 2}
          Contents = {"x", "y"}
          Variant = "write"
INVARIANTS Pure Unmodified
CHECK_DEADLOCK FALSE
