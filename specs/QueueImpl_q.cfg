SPECIFICATION Spec
CONSTANTS Values = {1, 2}
 MaxLen = 6
 InitLen = 0
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
