SPECIFICATION Spec
CONSTANTS N = 5
          LEN = 6
          Emitting = FALSE
INVARIANTS Refines RankOK LogRank
PROPERTY FindKeeps
VIEW View
CHECK_DEADLOCK FALSE
