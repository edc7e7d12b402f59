SPECIFICATION Spec
CONSTANTS
 STRIDE = 997
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
