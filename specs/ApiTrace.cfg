SPECIFICATION Spec
VIEW View
PROPERTY OnlyNamed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
