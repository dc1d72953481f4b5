SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = TRUE
  Ids = {"a"}
  Bufs = {"m", "k"}
  ArgNs = {0, 127}
  T = "i8"
VIEW View
INVARIANT Inv
PROPERTY ExportSafe
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
