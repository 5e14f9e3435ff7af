SPECIFICATION OSpec
INVARIANT OVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- PStart
  Apply <- PApply
