SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Careless = "inplace"
INVARIANTS AlwaysSafe AtTheEnd

CHECK_DEADLOCK FALSE
