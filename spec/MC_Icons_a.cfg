SPECIFICATION Spec
CONSTANTS Depth = 3 Kinds = {"icon","cursor"} GKeys <- KeysA Langs = {0,1033} Modes = {"max","free"} Files = {1,2} Pres = {2}
INVARIANT Groups ByIndex Numbers Singles Beh
PROPERTY Fresh Frame
VIEW View
CHECK_DEADLOCK FALSE
