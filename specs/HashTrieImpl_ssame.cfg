SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4}
 Ghosts = {0,7}
 Vals = {0,1}
 K = "hset"
 Degree = 16
 Digits <- DigitsSame
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
