SPECIFICATION Spec
CONSTANTS
 IMAX = 5
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
