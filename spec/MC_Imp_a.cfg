SPECIFICATION Spec
CONSTANTS F = 32 Offs = {33} Offs2 = {3} MaxL = 1 LibNames <- NamesA FuncLists <- FuncsA Placed = {0,1,2} Deep = {} Combos = "few"
INVARIANT Reads Refused Beh
PROPERTY Meets Pinned
CHECK_DEADLOCK FALSE
