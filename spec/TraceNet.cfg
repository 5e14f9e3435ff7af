SPECIFICATION TraceSpec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
CONSTANTS
  DrawArr <- TDrawArr
  DrawSvc <- TDrawSvc
  DrawDest <- TDrawDest
  Emit <- TEmit
  Retime <- TRetime
