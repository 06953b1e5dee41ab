SPECIFICATION Spec
CONSTANTS N = 6
 Most = 3
 Ranges = FALSE
 Emit = TRUE
VIEW View
INVARIANTS Start Once EmitState
PROPERTIES Refines Fused
CHECK_DEADLOCK FALSE
