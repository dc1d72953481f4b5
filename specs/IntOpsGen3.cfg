SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Emit = TRUE
  Pieces = 2
INVARIANT GenInv
CHECK_DEADLOCK FALSE
