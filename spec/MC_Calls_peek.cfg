SPECIFICATION Spec
CONSTANTS Callers = {1, 2}
          Contents = {"x", "y"}
          Variant = "peek"
INVARIANTS Pure Unmodified
CHECK_DEADLOCK FALSE
