SPECIFICATION GSpec
CONSTANTS BS = 2
          Levels <- LevelsMC
          Variant = "code"
          MaxOps = 12
          Kinds = {"brk", "emoji", "conj"}
          Width = 99
INVARIANTS Emit Faithful Refuses Contradicts
CHECK_DEADLOCK FALSE
