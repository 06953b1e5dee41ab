SPECIFICATION Spec
CONSTANTS MaxKey = 8
 Vals = {0}
 K = "tmap"
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
