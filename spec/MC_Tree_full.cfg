SPECIFICATION Spec
CONSTANTS F = 32 Offs = {2} MaxE = 4 Keys <- KeysC Lens = {0,1} Bads = {} Deep = {} Strips = {FALSE}
INVARIANT Reads Apart Beh
PROPERTY Meets Refused Pinned
CHECK_DEADLOCK FALSE
