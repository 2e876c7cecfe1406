SPECIFICATION Spec
CONSTANTS F = 32 Types = {1,3,10} MaxItems = 2 Moves = 2
INVARIANT Direct Back Frame Points Halves Beh
CHECK_DEADLOCK FALSE
