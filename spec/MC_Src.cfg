SPECIFICATION Spec
CONSTANTS
 NB = 5
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
