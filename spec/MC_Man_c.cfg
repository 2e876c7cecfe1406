SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Roots <- RootsC
 Keys <- KeysC
 Langs = {0,1033}
 Datas = {1}
INVARIANTS Always Agrees NoEmpty Types Lists Lookups Sorted Beh
VIEW View
CHECK_DEADLOCK FALSE
