SPECIFICATION Spec
CONSTANTS F = 32 Depth = 4 Ids = {0,5,12,15,16} Vals <- ValsA Mins = {0,3,14,20} Counts = {0,5,16} Flags <- FlagsA
INVARIANT Holds Asked Predicates Beh
PROPERTY Refused Strips
VIEW View
CHECK_DEADLOCK FALSE
