SPECIFICATION Spec
CONSTANTS Lens = {64,92,93,96,156} Lfs = {0,8,64,68} At = {2,3,64,67,88,93,152,1001,1002} Vals = {0,255,128} Depth = 3 Fills = {0,255}
INVARIANT Meaning Beh
PROPERTY Same Longer Byte1
VIEW View
CHECK_DEADLOCK FALSE
