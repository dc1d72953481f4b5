SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Depth = 4
  Nodes = 3
INVARIANT Inv
PROPERTY Grow
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
