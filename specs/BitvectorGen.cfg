SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = TRUE
  Ids = {"a","b"}
  Iters = {}
VIEW View
INVARIANT Inv
PROPERTY Frozen
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
