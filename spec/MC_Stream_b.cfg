SPECIFICATION Spec
CONSTANTS F = 64 Cuts <- Edges Bads <- BadNames Ops <- OpsAll Poses <- Pos2 Masks = {0,7,1,2,4}
VIEW View
INVARIANT Restored Truthful Quiet Total Beh
CHECK_DEADLOCK FALSE
