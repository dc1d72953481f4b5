SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxCh = 1
  Kinds = {"list", "tup", "map"}
  Emit = TRUE
INVARIANT InvShow
CHECK_DEADLOCK FALSE
