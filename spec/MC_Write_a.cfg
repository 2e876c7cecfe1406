SPECIFICATION Spec
CONSTANTS Fmts = {32} Al = 16 NSec = 2 Datas = {0,16} Stubs = {3} Nrvas = {16} Deep = FALSE
CONSTANT Bounds <- BoundsA
CONSTANT Opts <- OptsAll
INVARIANT Loads Again Fine Pinned Beh
PROPERTY Meets
CHECK_DEADLOCK FALSE
