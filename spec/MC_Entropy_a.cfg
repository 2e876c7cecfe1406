SPECIFICATION Spec
CONSTANTS F = 32 Alpha = {0,7,255} Words <- WordsA NSec = 3 MaxLen = 16 Depth = 4
INVARIANT Laws Orders Beh
PROPERTY Merge
VIEW View
CHECK_DEADLOCK FALSE
