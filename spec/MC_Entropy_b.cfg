SPECIFICATION Spec
CONSTANTS F = 64 Alpha = {0,3} Words <- WordsB NSec = 1 MaxLen = 512 Depth = 5
INVARIANT Laws Orders Beh
PROPERTY Merge
VIEW View
CHECK_DEADLOCK FALSE
