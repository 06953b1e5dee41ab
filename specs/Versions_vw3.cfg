SPECIFICATION Spec
CONSTANTS K = "vector"
 Depth = 4
 Size0 = 26
 BitsOrDegree = 3
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
