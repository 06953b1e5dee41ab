SPECIFICATION Spec
CONSTANTS MaxKey = 7
 Vals = {0}
 K = "tset"
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
