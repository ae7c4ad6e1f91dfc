SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS TextTracked OneAnswer Explained OnlyThat
CHECK_DEADLOCK FALSE
