SPECIFICATION Spec
CONSTANTS BS = 2
          Levels <- LevelsMC
          Variant = "lostRoot"
          MaxOps = 2
          Kinds = {"brk"}
          Width = 99
INVARIANTS Faithful Refuses Contradicts InBounds Bounded
CHECK_DEADLOCK FALSE
