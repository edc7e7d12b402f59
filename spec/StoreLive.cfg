CONSTANTS
 Fine = TRUE
SPECIFICATION Fair
INVARIANTS Durable
PROPERTIES Ends
