SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = TRUE
  Ids = {"a","b"}
  Iters = {"i"}
VIEW View0
INVARIANT Inv
PROPERTY Frozen
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
