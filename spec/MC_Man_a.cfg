SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Roots <- RootsA
 Keys <- KeysA
 Langs = {0,1033}
 Datas = {1, 3}
INVARIANTS Always Agrees NoEmpty Types Lists Lookups Sorted Beh
VIEW View
CHECK_DEADLOCK FALSE
