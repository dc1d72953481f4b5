SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "retry"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
