SPECIFICATION Spec
CONSTANTS
 DEPTH2 = FALSE
 NL2 = 7
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
