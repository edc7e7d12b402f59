SPECIFICATION Spec
CONSTANTS
 LIMITS = {0, 1, 2, 3, 10}
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
