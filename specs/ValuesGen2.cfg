SPECIFICATION Spec
CONSTANTS
  Deep2 = 2
  Emit = FALSE
INVARIANT Inv
INVARIANT InvTrans
CHECK_DEADLOCK FALSE
