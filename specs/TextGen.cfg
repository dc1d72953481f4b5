SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxCh = 2
  Kinds = {"list", "tup", "map"}
  Emit = TRUE
INVARIANT InvBoth
CHECK_DEADLOCK FALSE
