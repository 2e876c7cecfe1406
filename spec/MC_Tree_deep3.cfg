SPECIFICATION Spec
CONSTANTS F = 64 Offs = {5} MaxE = 3 Keys <- KeysD Lens = {2,0} Bads = {} Deep = {1} Strips = {TRUE}
INVARIANT Reads Apart Beh
PROPERTY Meets Refused Pinned
CHECK_DEADLOCK FALSE
