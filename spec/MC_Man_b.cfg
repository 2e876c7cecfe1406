SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Roots <- RootsB
 Keys <- KeysB
 Langs = {0}
 Datas = {0,2}
INVARIANTS Always Agrees NoEmpty Types Lists Lookups Sorted Beh
VIEW View
CHECK_DEADLOCK FALSE
