CONSTANTS D = 2
 BL = 2
 Pad = 1
 Bug = 0
SPECIFICATION Spec_
INVARIANTS Product Once Inside
CHECK_DEADLOCK FALSE
