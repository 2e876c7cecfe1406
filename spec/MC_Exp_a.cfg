SPECIFICATION Spec
CONSTANTS F = 32 Offs = {0,33} MaxF = 2 Ords = {1,2,4} Names <- NamesA Kinds = {"rva","fwd","zero"} Infos = {1} Deep = {}
INVARIANT Reads Refused Beh
PROPERTY Meets Exact Pinned
CHECK_DEADLOCK FALSE
