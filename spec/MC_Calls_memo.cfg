SPECIFICATION Spec
CONSTANTS Callers = {1, 2}
          Contents = {"x", "y"}
          Variant = "memo"
INVARIANTS Pure Unmodified
CHECK_DEADLOCK FALSE
