SPECIFICATION Spec
INVARIANTS Opposite Emitted
CHECK_DEADLOCK FALSE
