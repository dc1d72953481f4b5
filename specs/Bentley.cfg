SPECIFICATION Spec
CONSTANTS
  N = 7
  K = 3
  T1 = 3
  T2 = 5
INVARIANT IsPerm
INVARIANT Placed
INVARIANT Done
PROPERTY Shrinks
PROPERTY Ends
CHECK_DEADLOCK FALSE
