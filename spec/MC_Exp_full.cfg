SPECIFICATION Spec
CONSTANTS F = 32 Offs = {2} MaxF = 3 Ords = {1,2,4} Names <- NamesA Kinds = {"rva","fwd"} Infos = {2} Deep = {}
INVARIANT Reads Refused Beh
PROPERTY Meets Exact Pinned
CHECK_DEADLOCK FALSE
