SPECIFICATION Spec
CONSTANTS F = 32 Depth = 3 Kinds = {"exp","imp","rel","tls","tlsd"} Edits = {"vs","recalc","realign","expand"} Offs = {0,1004,1005} Saves = {TRUE}
PROPERTY Refused Space Monotone Frame
INVARIANT Beh
VIEW View
CHECK_DEADLOCK FALSE
