SPECIFICATION Spec
CONSTANTS F = 32 Depth = 3 Keys <- KeysA RecLists <- ListsA Pres <- PresA Posts <- PostsA Hurts = {"none","noRich","noDanS","cutKey","cutRich","twice","swap","four"}
INVARIANT Decodes Missing Fits Kept Loads Beh
VIEW View
CHECK_DEADLOCK FALSE
