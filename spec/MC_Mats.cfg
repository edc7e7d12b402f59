SPECIFICATION Spec
CONSTANTS
 LEN = 2
 SEL = "all"
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
