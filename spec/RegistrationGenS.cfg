SPECIFICATION Spec
CONSTANTS
 Max = 7
 Refine = FALSE
 Gen = TRUE
 MaxOps = 36
CHECK_DEADLOCK FALSE
