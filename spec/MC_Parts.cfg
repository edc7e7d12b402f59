SPECIFICATION Spec
CONSTANTS
 DEPTH = 0
 MODE = "all"
VIEW View
INVARIANTS Reparses FactLaw EditLaw Emitted
CHECK_DEADLOCK FALSE
