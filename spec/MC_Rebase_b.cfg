SPECIFICATION Spec
CONSTANTS F = 64 Types = {0,1,2,3,4,5,10} MaxItems = 1 Moves = 2
INVARIANT Direct Back Frame Points Halves Beh
CHECK_DEADLOCK FALSE
