SPECIFICATION Spec
CONSTANTS MaxKey = 4
 Vals = {0, 1}
 K = "tset"
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
