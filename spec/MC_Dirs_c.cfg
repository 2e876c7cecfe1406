SPECIFICATION Spec
CONSTANTS F = 32 Depth = 3 Offs = {0,120} Strips = {TRUE} Rich = {}
INVARIANT Rel5 Bnd11 Tls9 Cfg10 Fine Beh
PROPERTY Frame Back
VIEW View
CHECK_DEADLOCK FALSE
