SPECIFICATION Spec
CONSTANTS
 L = 2
INVARIANTS Laws Idempotent Emitted
CHECK_DEADLOCK FALSE
