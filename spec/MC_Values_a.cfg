SPECIFICATION Spec
CONSTANTS Depth = 2 MaxSize = 12
INVARIANT Beh
PROPERTY Independent Equal SelfSame Refused
VIEW View
CHECK_DEADLOCK FALSE
