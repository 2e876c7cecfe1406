SPECIFICATION Spec
CONSTANTS F = 64 Depth = 4 Keys <- KeysB RecLists <- ListsB Pres <- PresB Posts <- PostsB Hurts = {"none","noDanS","cutKey","swap"}
INVARIANT Decodes Missing Fits Kept Loads Beh
VIEW View
CHECK_DEADLOCK FALSE
