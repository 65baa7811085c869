CONSTANTS P = 8
 W = 5
 EMAX = 12
 NEMIN = 9
 K = 2
 M = 3
 Size = 3
 Special = 0
SPECIFICATION Spec_
INVARIANTS Determined Odd Accurate Kinded
CHECK_DEADLOCK FALSE
