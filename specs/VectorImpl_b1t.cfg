SPECIFICATION Spec
CONSTANTS Bits = 1
 MinLen = 0
 MaxLen = 34
 InitLen = 0
 Positions <- AllPositions
 MaxOdd = 2
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
