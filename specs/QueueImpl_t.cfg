SPECIFICATION Spec
CONSTANTS Values = {1,2,3}
 MaxLen = 6
 InitLen = 2
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
