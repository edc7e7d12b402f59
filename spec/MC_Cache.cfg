SPECIFICATION Spec
CONSTANTS
 L = 2
INVARIANTS LastWritten ReadGives Emitted
PROPERTIES HitRunsNothing MissRuns SwitchedOff NotOnFailure
CHECK_DEADLOCK FALSE
