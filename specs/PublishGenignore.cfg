SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "ignore"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
