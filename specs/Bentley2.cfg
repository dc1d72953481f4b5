SPECIFICATION Spec
CONSTANTS
  N = 9
  K = 3
  T1 = 2
  T2 = 7
INVARIANT IsPerm
INVARIANT Placed
INVARIANT Done
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
