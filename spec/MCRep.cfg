CONSTANTS P = 8
 W = 5
 EMAX = 12
 NEMIN = 9
 K = 2
 Depth = 5
 Slack = 0
SPECIFICATION Spec_
INVARIANTS Refines Canonical Carries Converts
CHECK_DEADLOCK FALSE
