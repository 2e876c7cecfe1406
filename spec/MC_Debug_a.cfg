SPECIFICATION Spec
CONSTANTS F = 32 NDbg = 2 NExc = 1 Blobs <- BlobsA Excs <- ExcsA Wheres = {"sec","hdr"} Tails = {"none","live"} Damage = {}
INVARIANT Loads Debugs Exceptions NetRead Total Beh
CHECK_DEADLOCK FALSE
