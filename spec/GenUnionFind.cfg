SPECIFICATION Spec
CONSTANTS N = 4
          LEN = 3
          Emitting = TRUE
INVARIANTS Refines RankOK LogRank Gen
CHECK_DEADLOCK FALSE
