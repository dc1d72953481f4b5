SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Depth = 9
  Objs = {"o"}
  Views = {"v","w"}
  Iters = {"i"}
  Mems = {"m","n"}
  Bufs = {}
VIEW View0
INVARIANT Inv Gone
PROPERTY Frozen Kept
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
