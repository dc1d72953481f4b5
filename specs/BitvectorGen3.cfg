SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emit = TRUE
  Ids = {"a"}
  Iters = {"i"}
VIEW View
INVARIANT Inv
PROPERTY Frozen
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
