CONSTANTS D = 3
 BL = 3
 Pad = 1
 Bug = 0
SPECIFICATION Spec_
INVARIANTS Product Once Inside
CHECK_DEADLOCK FALSE
