SPECIFICATION Spec
CONSTANTS Variant = "orig"
          MayContinue = TRUE
INVARIANTS Correct TypeOK
CHECK_DEADLOCK FALSE
