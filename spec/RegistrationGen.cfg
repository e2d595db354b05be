SPECIFICATION Spec
CONSTANTS
 Max = 7
 Refine = TRUE
 Gen = TRUE
 MaxOps = 36
CHECK_DEADLOCK FALSE
