SPECIFICATION Spec
CONSTANTS
  Items = 3
  Host <- TermHost
  Note <- TermNote
  FinalBuf <- TermFinal
  Prog <- TermProg
INVARIANTS Ends InOrderLoops OpenLoops
CHECK_DEADLOCK FALSE
