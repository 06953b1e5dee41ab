SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4,5,6,7}
 Ghosts = {0,8}
 Vals = {0}
 K = "hmap"
 Degree = 64
 Digits <- DigitsWide
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
