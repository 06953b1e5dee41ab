SPECIFICATION Spec
CONSTANTS MaxKey = 5
 Vals = {0, 1}
 K = "tmap"
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
