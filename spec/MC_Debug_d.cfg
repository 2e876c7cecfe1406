SPECIFICATION Spec
CONSTANTS F = 32 NDbg = 2 NExc = 1 Blobs <- BlobsD Excs <- ExcsA Wheres = {"hdr"} Tails = {"null","live"} Damage = {}
INVARIANT Loads Debugs Exceptions NetRead Total Beh
CHECK_DEADLOCK FALSE
