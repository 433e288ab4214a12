SPECIFICATION Spec
CONSTANTS BS = 2
          Levels <- LevelsMC
          Variant = "code"
          MaxOps = 3
          Kinds = {"brk", "emoji", "conj"}
          Width = 99
INVARIANTS Faithful Refuses Contradicts InBounds Bounded
CHECK_DEADLOCK FALSE
