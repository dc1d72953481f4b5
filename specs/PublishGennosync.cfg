SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "nosync"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
