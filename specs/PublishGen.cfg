SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = ""
INVARIANTS AlwaysSafe AtTheEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
