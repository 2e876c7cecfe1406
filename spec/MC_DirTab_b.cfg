SPECIFICATION Spec
CONSTANTS F = 64 Depth = 4 Ids = {5,0,2,13} Vals <- ValsB Mins = {0,1,6,13} Counts = {3,13,16} Flags <- FlagsB
INVARIANT Holds Asked Predicates Beh
PROPERTY Refused Strips
VIEW View
CHECK_DEADLOCK FALSE
