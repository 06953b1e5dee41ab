SPECIFICATION Spec
CONSTANTS N = 5
 Most = 1
 Ranges = TRUE
 Emit = TRUE
VIEW View
INVARIANTS Start Once EmitState
PROPERTIES Refines Fused
CHECK_DEADLOCK FALSE
