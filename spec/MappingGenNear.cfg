SPECIFICATION Spec
CONSTANTS
 MaxScan = 0
 Span = {0}
 Threshold = 1
 N = 3
 Gen = TRUE
 MaxOps = 16
 Past = FALSE
CHECK_DEADLOCK FALSE
