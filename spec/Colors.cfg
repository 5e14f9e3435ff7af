SPECIFICATION OSpec
INVARIANT OVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- CStart
  Apply <- CApply
