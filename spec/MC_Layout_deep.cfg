SPECIFICATION Spec
CONSTANTS SA = 16 FA = 16 Soh = 1024 Depth = 4 Rich = FALSE
INVARIANT Inv
INVARIANT Beh
PROPERTY Refused LastOnly Contents Cover
VIEW View
CHECK_DEADLOCK FALSE
