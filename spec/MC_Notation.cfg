SPECIFICATION Spec
CONSTANTS
 CHANGES = 1
 DEEP = 2
INVARIANTS Fixed Stray Emitted
CHECK_DEADLOCK FALSE
