SPECIFICATION OSpec
INVARIANT OVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- GStart
  Apply <- GApply
