SPECIFICATION Spec
CONSTANTS K = "tmap"
 Depth = 5
 Size0 = 8
 BitsOrDegree = 0
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
