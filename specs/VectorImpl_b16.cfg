SPECIFICATION Spec
CONSTANTS Bits = 16
 MinLen = 511
 MaxLen = 513
 InitLen = 512
 Positions <- FewPositions
 MaxOdd = 0
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
