CONSTANTS NF = 12
 NW = 10
 MaxSwitch = 10000
 Bug = 0
SPECIFICATION Spec
VIEW Where
INVARIANT Undisturbed
INVARIANT Marked
CHECK_DEADLOCK FALSE
