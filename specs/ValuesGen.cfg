SPECIFICATION Spec
CONSTANTS
  Deep2 = 1
  Emit = FALSE
INVARIANT Inv
INVARIANT InvTrans
CHECK_DEADLOCK FALSE
