SPECIFICATION Spec
CONSTANTS
 NF = 1
 NO = 2
INVARIANTS Shuffled Emitted
CHECK_DEADLOCK FALSE
