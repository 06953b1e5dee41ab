SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4,5,6}
 Ghosts = {0,7}
 Vals = {0,1}
 K = "hmap"
 Degree = 64
 Digits <- DigitsDeep
 Emit = TRUE
VIEW View
INVARIANTS Inv EmitState
PROPERTY Refines
CHECK_DEADLOCK FALSE
