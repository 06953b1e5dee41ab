SPECIFICATION Spec
CONSTANTS K = "hset"
 Depth = 4
 Size0 = 7
 BitsOrDegree = 64
 Wide = TRUE
 Emit = TRUE
PROPERTIES OnlyNamed SameAsPersistent
CHECK_DEADLOCK FALSE
