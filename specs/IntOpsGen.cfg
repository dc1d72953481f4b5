SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emit = TRUE
  Pieces = 1
INVARIANT GenInv
CHECK_DEADLOCK FALSE
