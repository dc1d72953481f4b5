SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANT Agree
INVARIANT BitsAgree
INVARIANT SortAgree
INVARIANT InverseAgree
CHECK_DEADLOCK FALSE
