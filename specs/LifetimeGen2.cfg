SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Depth = 8
  Objs = {"o","q"}
  Views = {"v","w"}
  Iters = {}
  Mems = {}
  Bufs = {"b"}
VIEW View0
INVARIANT Inv Gone
PROPERTY Frozen Kept
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
