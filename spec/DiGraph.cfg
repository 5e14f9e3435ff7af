SPECIFICATION OSpec
INVARIANT OVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- DStart
  Apply <- DApply
