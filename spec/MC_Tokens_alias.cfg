SPECIFICATION Spec
CONSTANTS MaxInput = 8
          FirstSize = 2
          Limit = 4
          Variant = "alias"
INVARIANTS Intact Complete Limited

CHECK_DEADLOCK FALSE
