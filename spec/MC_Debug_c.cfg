SPECIFICATION Spec
CONSTANTS F = 64 NDbg = 2 NExc = 0 Blobs <- BlobsB Excs <- ExcsA Wheres = {"sec"} Tails = {"none","live","short"} Damage = {}
INVARIANT Loads Debugs Exceptions NetRead Total Beh
CHECK_DEADLOCK FALSE
