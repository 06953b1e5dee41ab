SPECIFICATION Spec
CONSTANTS K = "vector"
 Depth = 5
 Size0 = 5
 BitsOrDegree = 1
 Wide = FALSE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
