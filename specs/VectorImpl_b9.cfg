SPECIFICATION Spec
CONSTANTS Bits = 9
 MinLen = 511
 MaxLen = 513
 InitLen = 512
 Positions <- FewPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
