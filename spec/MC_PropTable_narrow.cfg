SPECIFICATION Spec
CONSTANTS BS = 2
          Levels <- LevelsMC
          Variant = "narrow"
          MaxOps = 3
          Kinds = {"brk"}
          Width = 4
INVARIANTS Faithful Refuses Contradicts InBounds Bounded
CHECK_DEADLOCK FALSE
