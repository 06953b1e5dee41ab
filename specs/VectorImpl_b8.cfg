SPECIFICATION Spec
CONSTANTS Bits = 8
 MinLen = 254
 MaxLen = 259
 InitLen = 256
 Positions <- FewPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
