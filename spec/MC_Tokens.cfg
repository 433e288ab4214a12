SPECIFICATION Spec
CONSTANTS MaxInput = 8
          FirstSize = 2
          Limit = 4
          Variant = "clone"
INVARIANTS Intact Complete Limited
PROPERTY Ends
CHECK_DEADLOCK FALSE
