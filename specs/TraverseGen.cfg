SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxKids = 2
  MaxVisits = 5
  Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
