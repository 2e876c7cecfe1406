SPECIFICATION Spec
CONSTANTS F = 64 Offs = {1} Offs2 = {4} MaxL = 1 LibNames <- NamesB FuncLists <- FuncsC Placed = {0} Deep = {1} Combos = "few"
INVARIANT Reads Refused Beh
PROPERTY Meets Pinned
CHECK_DEADLOCK FALSE
