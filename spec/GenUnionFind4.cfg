SPECIFICATION Spec
CONSTANTS N = 4
          LEN = 4
          Emitting = TRUE
INVARIANTS Refines RankOK LogRank Gen
CHECK_DEADLOCK FALSE
