SPECIFICATION Spec
CONSTANTS Bits = 5
 MinLen = 0
 MaxLen = 34
 InitLen = 0
 Positions <- FewPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
