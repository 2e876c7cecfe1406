SPECIFICATION Spec
CONSTANTS Fmts = {32,64} Al = 16 NSec = 1 Datas = {5} Stubs = {3} Nrvas = {12} Deep = TRUE
CONSTANT Bounds <- BoundsA
CONSTANT Opts <- OptsTwo
INVARIANT Loads Again Fine Pinned Beh
PROPERTY Meets
CHECK_DEADLOCK FALSE
