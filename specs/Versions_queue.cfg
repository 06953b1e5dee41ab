SPECIFICATION Spec
CONSTANTS K = "queue"
 Depth = 5
 Size0 = 2
 BitsOrDegree = 5
 Wide = FALSE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
