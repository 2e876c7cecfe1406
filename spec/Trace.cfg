SPECIFICATION Spec
INVARIANT Report
INVARIANT Done
CHECK_DEADLOCK FALSE
VIEW View
