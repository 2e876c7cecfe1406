SPECIFICATION Spec
CONSTANTS F = 32 Cuts <- Few Bads <- BadNames Ops <- OpsAll Poses <- Pos2 Masks = {0,7,1,2,4}
VIEW View
INVARIANT Restored Truthful Quiet Total Beh
CHECK_DEADLOCK FALSE
