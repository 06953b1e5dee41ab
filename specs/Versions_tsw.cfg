SPECIFICATION Spec
CONSTANTS K = "tset"
 Depth = 4
 Size0 = 7
 BitsOrDegree = 0
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
