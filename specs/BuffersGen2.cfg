SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Depth = 6
  Ids = {"a","b"}
  Bufs = {"m","n"}
VIEW View0
INVARIANT Inv
PROPERTY Steady
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
