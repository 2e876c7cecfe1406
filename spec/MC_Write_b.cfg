SPECIFICATION Spec
CONSTANTS Fmts = {64} Al = 16 NSec = 1 Datas = {0,5,16} Stubs = {0,3,4} Nrvas = {0,11,12,16} Deep = FALSE
CONSTANT Bounds <- BoundsB
CONSTANT Opts <- OptsAll
INVARIANT Loads Again Fine Pinned Beh
PROPERTY Meets
CHECK_DEADLOCK FALSE
