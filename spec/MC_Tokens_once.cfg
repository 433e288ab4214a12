SPECIFICATION Spec
CONSTANTS MaxInput = 8
          FirstSize = 2
          Limit = 4
          Variant = "once"
INVARIANTS Intact Complete Limited

CHECK_DEADLOCK FALSE
