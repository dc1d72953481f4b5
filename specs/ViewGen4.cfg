SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = TRUE
  Ids = {"a", "b", "c"}
  Iters = {}
VIEW View0
INVARIANT Inv
PROPERTY Frozen
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
