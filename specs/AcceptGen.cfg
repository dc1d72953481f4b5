SPECIFICATION Spec
INVARIANT InvShow
CHECK_DEADLOCK FALSE
CONSTANTS MaxCh = 1
 Kinds = {"list", "tup", "map", "set", "fset"}
