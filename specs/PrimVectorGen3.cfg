SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Emit = TRUE
  Ids = {"a"}
  Bufs = {}
  ArgNs <- NegArgs
  T = "i64"
VIEW View
INVARIANT Inv
PROPERTY ExportSafe
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
