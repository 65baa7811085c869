CONSTANTS NF = 6
 NW = 4
 MaxSwitch = 2
 Bug = 0
SPECIFICATION Spec
INVARIANT Undisturbed
INVARIANT Marked
CHECK_DEADLOCK FALSE
