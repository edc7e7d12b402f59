SPECIFICATION Spec
CONSTANTS
 NEST = 3
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
