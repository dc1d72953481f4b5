SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "litter"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
