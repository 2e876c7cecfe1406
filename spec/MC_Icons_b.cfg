SPECIFICATION Spec
CONSTANTS Depth = 4 Kinds = {"cursor"} GKeys <- KeysB Langs = {0,9} Modes = {"max","free"} Files = {1,3} Pres = {2,65534,65535}
INVARIANT Groups ByIndex Numbers Singles Beh
PROPERTY Fresh Frame
VIEW View
CHECK_DEADLOCK FALSE
