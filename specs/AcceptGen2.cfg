SPECIFICATION Spec
INVARIANT InvShow
CHECK_DEADLOCK FALSE
CONSTANTS MaxCh = 2
 Kinds = {"list", "tup", "map", "set", "fset"}
