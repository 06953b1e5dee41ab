SPECIFICATION Spec
CONSTANTS Bits = 63
 MinLen = 257
 MaxLen = 260
 InitLen = 258
 Positions <- FewPositions
 MaxOdd = 0
 Emit = TRUE
VIEW View
INVARIANTS Inv IterInv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
