SPECIFICATION Spec
CONSTANTS
 T = 2
 N = 4
 KINDS = {"ok"}
 CALM = FALSE
INVARIANTS InOrder NotTooEarly Complete Prompt NoTrap Emitted
CHECK_DEADLOCK FALSE
