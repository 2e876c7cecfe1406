SPECIFICATION Spec
CONSTANTS F = 64 Offs = {6} MaxE = 3 Keys <- KeysB Lens = {5} Bads = {} Deep = {} Strips = {TRUE}
INVARIANT Reads Apart Beh
PROPERTY Meets Refused Pinned
CHECK_DEADLOCK FALSE
