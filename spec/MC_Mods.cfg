SPECIFICATION Spec
CONSTANTS
 LEN = 2
 SEL = "strings"
INVARIANTS Law Emitted
CHECK_DEADLOCK FALSE
