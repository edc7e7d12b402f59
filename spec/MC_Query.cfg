SPECIFICATION Spec
CONSTANTS
 NQ = 2
 NTOK = 9
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
