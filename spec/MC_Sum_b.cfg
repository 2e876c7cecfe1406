SPECIFICATION Spec
CONSTANTS Lens = {152,153,154,155,156,157,160} Lfs = {64,68,72} At = {7,64,151,152,155,156,1001,1004} Vals = {1,255,128} Depth = 2 Fills = {0,17}
INVARIANT Meaning Beh
PROPERTY Same Longer Byte1
VIEW View
CHECK_DEADLOCK FALSE
