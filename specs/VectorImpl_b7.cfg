SPECIFICATION Spec
CONSTANTS Bits = 7
 MinLen = 126
 MaxLen = 130
 InitLen = 128
 Positions <- FewPositions
 MaxOdd = 0
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
