SPECIFICATION FairSpec
CONSTANTS
 T = 2
 N = 3
 KINDS = {"ok"}
 CALM = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
