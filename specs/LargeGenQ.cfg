SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Agree
INVARIANT BitsAgree
INVARIANT SortAgree
INVARIANT InverseAgree
CHECK_DEADLOCK FALSE
