SPECIFICATION Spec
CONSTANTS
  Host <- NoHost
  Note <- NoNote
  FinalBuf <- NoBuf
  Prog <- NoProg
INVARIANTS Bounded Named
CHECK_DEADLOCK FALSE
