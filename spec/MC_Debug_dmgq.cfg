SPECIFICATION Spec
CONSTANTS F = 64 NDbg = 1 NExc = 1 Blobs <- BlobsC Excs <- ExcsA Wheres = {"hdr"} Tails = {"live"} Damage = {0,255}
INVARIANT Loads Debugs Exceptions NetRead Total Beh
CHECK_DEADLOCK FALSE
