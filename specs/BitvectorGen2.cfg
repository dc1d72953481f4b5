SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Emit = TRUE
  Ids = {"a","b"}
  Iters = {"i"}
VIEW View
INVARIANT Inv
PROPERTY Frozen
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
