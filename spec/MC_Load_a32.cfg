SPECIFICATION Spec
CONSTANTS F = 32 Depth = 1 Mems = {FALSE,TRUE} Wants = {0,32,64}
INVARIANT BaseOk Accepted OneSection SameFormat Beh
CHECK_DEADLOCK FALSE
