SPECIFICATION Spec
CONSTANTS Bits = 6
 MinLen = 61
 MaxLen = 68
 InitLen = 64
 Positions <- FewPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
