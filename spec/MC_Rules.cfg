SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {"CR", "LF", "Control", "Extend", "ExtendX", "Linker", "ZWJ", "RI", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict", "Consonant", "Other", "Err"}
          Variant = "code"
INVARIANTS MonitorsSummarise Restartable Causal Closed
PROPERTY StepAgrees
CHECK_DEADLOCK FALSE
