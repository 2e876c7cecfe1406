SPECIFICATION Spec
CONSTANTS F = 64 Offs = {5} MaxF = 2 Ords = {1,3} Names <- NamesB Kinds = {"rva","fwd","zero"} Infos = {1,2} Deep = {1,128}
INVARIANT Reads Refused Beh
PROPERTY Meets Exact Pinned
CHECK_DEADLOCK FALSE
