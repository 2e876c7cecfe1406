SPECIFICATION Spec
CONSTANTS F = 32 Cuts <- All Bads <- NoBad Ops <- OpsAll Poses <- Pos1 Masks = {0,5}
VIEW View
INVARIANT Restored Truthful Quiet Total Beh
CHECK_DEADLOCK FALSE
