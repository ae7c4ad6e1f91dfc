SPECIFICATION Spec
CONSTANTS
  Host <- TraceHost
  Note <- TraceNote
  FinalBuf <- TraceFinal
  Prog <- TraceProg
INVARIANT Bounded
CHECK_DEADLOCK FALSE
