SPECIFICATION Spec
CONSTANTS
  Host <- GoHost
  Note <- TraceNote
  FinalBuf <- TraceFinal
  Prog <- TraceProg
INVARIANT Bounded
CHECK_DEADLOCK FALSE
