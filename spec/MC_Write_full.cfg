SPECIFICATION Spec
CONSTANTS Fmts = {32,64} Al = 16 NSec = 2 Datas = {0,5,16} Stubs = {0,3} Nrvas = {0,12,16} Deep = FALSE
CONSTANT Bounds <- BoundsA
CONSTANT Opts <- OptsAll
INVARIANT Loads Again Fine Beh
PROPERTY Meets
CHECK_DEADLOCK FALSE
