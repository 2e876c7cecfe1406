SPECIFICATION Spec
CONSTANTS F = 32 Depth = 2 Kinds <- KindsA Edits <- EditsA Offs = {0,1000,1001,1003,1004,1005,1008} Saves = {TRUE}
PROPERTY Refused Space Monotone Frame
INVARIANT Beh
VIEW View
CHECK_DEADLOCK FALSE
