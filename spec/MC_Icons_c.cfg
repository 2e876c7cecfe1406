SPECIFICATION Spec
CONSTANTS Depth = 4 Kinds = {"icon"} GKeys <- KeysA Langs = {0,1033} Modes = {"max","free"} Files = {2,3} Pres = {3,65534}
INVARIANT Groups ByIndex Numbers Singles Beh
PROPERTY Fresh Frame
VIEW View
CHECK_DEADLOCK FALSE
