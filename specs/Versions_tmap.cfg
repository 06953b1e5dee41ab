SPECIFICATION Spec
CONSTANTS K = "tmap"
 Depth = 4
 Size0 = 4
 BitsOrDegree = 0
 Wide = FALSE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
