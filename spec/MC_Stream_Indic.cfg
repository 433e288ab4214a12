SPECIFICATION Spec
CONSTANTS ByteAlphabet = {97, 194, 129, 130, 131, 227}
          InputLen = 5
          MaxRead = 3
          EmptyReads = TRUE
          Inputs <- AllInputs
          ClassName <- IndicClasses
          Answers <- SplitAnswers
          ClassOf <- Toy
          ClassesIn <- ToyIn
INVARIANTS TypeOK Lossless Final Complete Isolated NotWithheld
PROPERTY Terminates
CHECK_DEADLOCK FALSE
