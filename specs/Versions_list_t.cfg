SPECIFICATION Spec
CONSTANTS K = "list"
 Depth = 6
 Size0 = 3
 BitsOrDegree = 5
 Wide = FALSE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
