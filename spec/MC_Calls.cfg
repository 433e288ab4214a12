SPECIFICATION Spec
CONSTANTS Callers = {1, 2, 3}
          Contents = {"x", "y"}
          Variant = "pure"
INVARIANTS Pure Unmodified
CHECK_DEADLOCK FALSE
