SPECIFICATION Spec
CONSTANTS Handles = {0, 1, 2}
 Values = {1, 2}
 MaxLen = 2
 MaxNodes = 4
 Stackish = FALSE
 Emit = TRUE
VIEW View
INVARIANTS Inv NoGarbage
PROPERTIES Refines Sharing
CHECK_DEADLOCK FALSE
