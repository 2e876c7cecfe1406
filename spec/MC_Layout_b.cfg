SPECIFICATION Spec
CONSTANTS SA = 32 FA = 16 Soh = 1024 Depth = 3 Rich = TRUE
INVARIANT Inv
INVARIANT Beh
PROPERTY Refused LastOnly Contents Cover
VIEW View
CHECK_DEADLOCK FALSE
