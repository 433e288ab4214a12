SPECIFICATION Spec
CONSTANTS Callers = {1, 2}
          Contents = {"x", "y", "z"}
          Variant = "key"
INVARIANTS Pure Unmodified
CHECK_DEADLOCK FALSE
