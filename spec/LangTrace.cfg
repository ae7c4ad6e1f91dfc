SPECIFICATION Spec
CONSTANTS
  Host <- TraceHost
  Note <- TraceNote
  FinalBuf <- TraceFinal
  Protocol <- TraceProtocol
INVARIANT Bounded
CHECK_DEADLOCK FALSE
