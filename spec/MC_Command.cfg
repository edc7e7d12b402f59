SPECIFICATION Spec
CONSTANTS
 NA = 2
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
