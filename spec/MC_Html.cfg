SPECIFICATION Spec
CONSTANTS
 NA = 4
 NT = 4
 NJ = 3
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
