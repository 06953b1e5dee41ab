SPECIFICATION Spec
CONSTANTS K = "vector"
 Depth = 5
 Size0 = 14
 BitsOrDegree = 2
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
