SPECIFICATION Spec
CONSTANTS Bits = 3
 MinLen = 0
 MaxLen = 10
 InitLen = 0
 Positions <- AllPositions
 MaxOdd = 2
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
