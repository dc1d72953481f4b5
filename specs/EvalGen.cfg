SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = TRUE
INVARIANT InvBoth
CHECK_DEADLOCK FALSE
