SPECIFICATION Spec
CONSTANTS N = 6
          LEN = 6
          Emitting = FALSE
INVARIANTS Refines RankOK LogRank
PROPERTY FindKeeps
VIEW View
CHECK_DEADLOCK FALSE
