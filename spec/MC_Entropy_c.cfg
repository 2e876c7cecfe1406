SPECIFICATION Spec
CONSTANTS F = 64 Alpha = {0,7,255,128} Words <- WordsA NSec = 3 MaxLen = 16 Depth = 5
INVARIANT Laws Orders Beh
PROPERTY Merge
VIEW View
CHECK_DEADLOCK FALSE
