SPECIFICATION Spec
CONSTANTS Bits = 5
 MinLen = 1020
 MaxLen = 1028
 InitLen = 1023
 Positions <- FewPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
