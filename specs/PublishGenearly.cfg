SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "early"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
