SPECIFICATION Spec
CONSTANTS Lens = {64,65,66,67,68,92,93,95} Lfs = {0,4,8,64} At = {2,3,5,59,64,88,91,1001,1002} Vals = {0,255} Depth = 2 Fills = {0,255}
INVARIANT Meaning Beh
PROPERTY Same Longer Byte1
VIEW View
CHECK_DEADLOCK FALSE
