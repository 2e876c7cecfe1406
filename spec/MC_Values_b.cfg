SPECIFICATION Spec
CONSTANTS Depth = 3 MaxSize = 12
INVARIANT Beh
PROPERTY Independent Equal SelfSame Refused
VIEW View
CHECK_DEADLOCK FALSE
