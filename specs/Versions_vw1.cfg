SPECIFICATION Spec
CONSTANTS K = "vector"
 Depth = 4
 Size0 = 9
 BitsOrDegree = 1
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
