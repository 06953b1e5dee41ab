SPECIFICATION Spec
CONSTANTS K = "hmap"
 Depth = 5
 Size0 = 5
 BitsOrDegree = 0
 Wide = FALSE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
