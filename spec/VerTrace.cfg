SPECIFICATION Spec
CONSTANTS
  Host <- NoHost
  Note <- NoNote
  FinalBuf <- NoBuf
  Prog <- NoProg
INVARIANT Bounded
CHECK_DEADLOCK FALSE
