SPECIFICATION Spec
CONSTANTS
 CAP = 1
 L = 2
 SMAX = 3
 SERIAL = FALSE
INVARIANTS NothingLost PoliteIsFine Stuck Emitted
PROPERTIES Ends
