SPECIFICATION Spec
CONSTANTS F = 64 Depth = 2 Mems = {FALSE} Wants = {0}
INVARIANT BaseOk Accepted OneSection SameFormat Beh
CHECK_DEADLOCK FALSE
