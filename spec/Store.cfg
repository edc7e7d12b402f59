CONSTANTS
 Fine = TRUE
SPECIFICATION Spec
INVARIANTS Durable Whole OneWriter Acknowledged NotStuck Emitted
