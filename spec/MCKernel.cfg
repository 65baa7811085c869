CONSTANTS P = 8
 W = 5
 EMAX = 12
 NEMIN = 9
 K = 2
 V = 2
 PER = 1
 Len0 = 4
 Slack = 0
SPECIFICATION Spec_
INVARIANTS Sum Room
CHECK_DEADLOCK FALSE
