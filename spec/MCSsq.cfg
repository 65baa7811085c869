CONSTANTS P = 8
 W = 5
 EMAX = 32
 NEMIN = 29
 K = 2
 M = 3
 Size = 3
SPECIFICATION Spec_
INVARIANTS ScaleDetermined Determined InRange
CHECK_DEADLOCK FALSE
