SPECIFICATION Spec
CONSTANTS Depth = 5 Raw0 <- RawC Vs0 = 3 Calls = {"virt","raw","at","empty","set","size","vs","rs","edit","vedit","copy","whole"}
VIEW View
INVARIANT Stands Shown Beh
CHECK_DEADLOCK FALSE
