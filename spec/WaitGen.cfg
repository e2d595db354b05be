SPECIFICATION Spec
CONSTANTS
 N = 4
 Gen = TRUE
 MaxOps = 30
CHECK_DEADLOCK FALSE
