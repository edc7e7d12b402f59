SPECIFICATION Spec
CONSTANTS
 N = 3
INVARIANTS Positions Local Failures Codes Emitted
CHECK_DEADLOCK FALSE
