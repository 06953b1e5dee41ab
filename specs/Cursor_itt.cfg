SPECIFICATION Spec
CONSTANTS N = 8
 Most = 5
 Ranges = FALSE
 Emit = TRUE
VIEW View
INVARIANTS Start Once EmitState
PROPERTIES Refines Fused
CHECK_DEADLOCK FALSE
