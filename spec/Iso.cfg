SPECIFICATION Spec
CONSTANTS
 NW = 1
 L = 3
INVARIANTS Isolated Emitted
CHECK_DEADLOCK FALSE
