SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Depth = 5
  Nodes = 4
INVARIANT Inv
PROPERTY Grow
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
