SPECIFICATION OSpec
INVARIANT OVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- QStart
  Apply <- QApply
