SPECIFICATION Spec
CONSTANTS F = 64 Depth = 2 Kinds <- KindsA Edits <- EditsA Offs = {0,1004,1005} Saves = {TRUE,FALSE}
PROPERTY Refused Space Monotone Frame
INVARIANT Beh
VIEW View
CHECK_DEADLOCK FALSE
