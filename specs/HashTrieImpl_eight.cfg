SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4,5,6}
 Ghosts = {0,7}
 Vals = {0}
 K = "hmap"
 Degree = 8
 Digits <- DigitsEight
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
