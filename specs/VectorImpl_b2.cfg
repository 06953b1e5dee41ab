SPECIFICATION Spec
CONSTANTS Bits = 2
 MinLen = 0
 MaxLen = 18
 InitLen = 0
 Positions <- AllPositions
 MaxOdd = 1
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
