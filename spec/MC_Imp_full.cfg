SPECIFICATION Spec
CONSTANTS F = 64 Offs = {0} Offs2 = {3} MaxL = 2 LibNames <- NamesB FuncLists <- FuncsA Placed = {0,2} Deep = {} Combos = "few"
INVARIANT Reads Refused Beh
PROPERTY Meets Pinned
CHECK_DEADLOCK FALSE
