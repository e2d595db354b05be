SPECIFICATION Spec
CONSTANTS
 Max = 8
 On = {}
 Gen = TRUE
 MaxOps = 55
CHECK_DEADLOCK FALSE
