SPECIFICATION Spec
CONSTANTS Depth = 1 MaxLen = 3
INVARIANT Beh
PROPERTY Independent Equal SelfSame Twice
CHECK_DEADLOCK FALSE
