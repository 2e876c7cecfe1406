SPECIFICATION Spec
CONSTANTS Depth = 3 Raw0 <- RawA Vs0 = 20 Calls = {"virt","raw","at","empty","set","size","vs","rs","edit","vedit","copy","whole"}
INVARIANT Stands Shown Beh
CHECK_DEADLOCK FALSE
