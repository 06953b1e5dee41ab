SPECIFICATION Spec
CONSTANTS Bits = 1
 MinLen = 0
 MaxLen = 17
 InitLen = 0
 Positions <- AllPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
