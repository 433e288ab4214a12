SPECIFICATION Spec
CONSTANTS Variant = "code"
          MayContinue = TRUE
INVARIANTS Correct TypeOK
CHECK_DEADLOCK FALSE
