SPECIFICATION Spec
CONSTANTS N = 6
 Most = 1
 Ranges = TRUE
 Emit = TRUE
VIEW View
INVARIANTS Start Once EmitState
PROPERTIES Refines Fused
CHECK_DEADLOCK FALSE
