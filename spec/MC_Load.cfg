SPECIFICATION Spec
CONSTANTS
 NP = 2
INVARIANTS Law Mono Emitted
CHECK_DEADLOCK FALSE
