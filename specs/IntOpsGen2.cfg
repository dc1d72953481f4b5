SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Emit = TRUE
  Pieces = 2
INVARIANT GenInv
CHECK_DEADLOCK FALSE
