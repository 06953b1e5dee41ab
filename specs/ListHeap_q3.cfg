SPECIFICATION Spec
CONSTANTS Handles = {0, 1}
 Values = {1, 2}
 MaxLen = 4
 MaxNodes = 6
 Stackish = FALSE
 Emit = TRUE
VIEW View
INVARIANTS Inv NoGarbage
PROPERTIES Refines Sharing
CHECK_DEADLOCK FALSE
