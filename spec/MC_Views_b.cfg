SPECIFICATION Spec
CONSTANTS Depth = 6 Raw0 <- RawC Vs0 = 20 Calls = {"virt","raw","set","size","vs","vedit","copy"}
VIEW View
INVARIANT Stands Shown Beh
CHECK_DEADLOCK FALSE
