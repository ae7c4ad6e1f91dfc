SPECIFICATION Spec
CONSTANTS
  Host <- MCHost
  Note <- MCNote
  FinalBuf <- MCFinal
  Protocol <- MCProtocol
INVARIANTS Ends Contained RoundTrip CutShort Room0 Stops AsBefore NoSurprise
CHECK_DEADLOCK FALSE
