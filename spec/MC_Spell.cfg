SPECIFICATION Spec
INVARIANTS Fixed Emitted
CHECK_DEADLOCK FALSE
