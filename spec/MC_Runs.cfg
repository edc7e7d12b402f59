SPECIFICATION Spec
INVARIANTS Known Emitted
PROPERTIES Alone Grows
CHECK_DEADLOCK FALSE
