SPECIFICATION Spec
CONSTANTS F = 32 Depth = 2 Offs = {0,50,120} Strips = {TRUE} Rich = {2}
INVARIANT Rel5 Bnd11 Tls9 Cfg10 Fine Beh
PROPERTY Frame Back
VIEW View
CHECK_DEADLOCK FALSE
