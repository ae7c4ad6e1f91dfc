SPECIFICATION Spec
CONSTANTS
  Host <- JsonHost
  Note <- JsonNote
  FinalBuf <- TraceFinal
  Protocol <- TraceProtocol
INVARIANT Bounded
CHECK_DEADLOCK FALSE
