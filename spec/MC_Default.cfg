SPECIFICATION Spec
CONSTANTS
  Step = 1
  Offset = 0
  NP = 1
INVARIANTS Laws Emitted
CHECK_DEADLOCK FALSE
