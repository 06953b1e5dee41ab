SPECIFICATION Spec
CONSTANTS Bits = 5
 MinLen = 1021
 MaxLen = 1027
 InitLen = 1023
 Positions <- FewPositions
 MaxOdd = 0
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
