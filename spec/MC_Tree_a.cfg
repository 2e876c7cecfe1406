SPECIFICATION Spec
CONSTANTS F = 32 Offs = {0,33} MaxE = 2 Keys <- KeysA Lens = {0,3} Bads = {"none","id","name"} Deep = {} Strips = {TRUE,FALSE}
INVARIANT Reads Apart Beh
PROPERTY Meets Refused Pinned
CHECK_DEADLOCK FALSE
