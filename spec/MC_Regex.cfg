SPECIFICATION Spec
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
