SPECIFICATION Spec
CONSTANTS F = 32 Depth = 2 Mems = {TRUE} Wants = {32}
INVARIANT BaseOk Accepted OneSection SameFormat Beh
CHECK_DEADLOCK FALSE
