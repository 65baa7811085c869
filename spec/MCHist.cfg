CONSTANTS Fmt = "d"
 K = 2
 Base = 3
 Depth = 3
SPECIFICATION Spec_
VIEW View
INVARIANT Room
CHECK_DEADLOCK FALSE
