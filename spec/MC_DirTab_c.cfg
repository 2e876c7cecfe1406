SPECIFICATION Spec
CONSTANTS F = 64 Depth = 6 Ids = {0,5,12,13} Vals <- ValsB Mins = {0,13} Counts = {5,13,16} Flags <- FlagsB
INVARIANT Holds Asked Predicates Beh
PROPERTY Refused Strips
VIEW View
CHECK_DEADLOCK FALSE
