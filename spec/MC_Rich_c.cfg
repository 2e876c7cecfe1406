SPECIFICATION Spec
CONSTANTS F = 64 Depth = 5 Keys <- KeysB RecLists <- ListsB Pres <- PresB Posts <- PostsB Hurts = {"none","twice","cutRich"}
INVARIANT Decodes Missing Fits Kept Loads Beh
VIEW View
CHECK_DEADLOCK FALSE
