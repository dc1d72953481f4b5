SPECIFICATION Spec
CONSTANTS
  N = 10
  K = 4
  T1 = 3
  T2 = 7
INVARIANT IsPerm
INVARIANT Placed
INVARIANT Done
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
