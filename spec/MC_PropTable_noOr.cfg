SPECIFICATION Spec
CONSTANTS BS = 2
          Levels <- LevelsMC
          Variant = "noOr"
          MaxOps = 3
          Kinds = {"brk", "conj"}
          Width = 99
INVARIANTS Faithful Refuses Contradicts InBounds Bounded
CHECK_DEADLOCK FALSE
