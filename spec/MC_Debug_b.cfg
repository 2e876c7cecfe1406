SPECIFICATION Spec
CONSTANTS F = 64 NDbg = 1 NExc = 2 Blobs <- BlobsB Excs <- ExcsB Wheres = {"sec","hdr"} Tails = {"none","null","live","short"} Damage = {}
INVARIANT Loads Debugs Exceptions NetRead Total Beh
CHECK_DEADLOCK FALSE
