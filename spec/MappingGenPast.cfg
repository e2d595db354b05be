SPECIFICATION Spec
CONSTANTS
 MaxScan = 0
 Span = {0}
 Threshold = 1
 N = 3
 Gen = TRUE
 MaxOps = 16
 Past = TRUE
CHECK_DEADLOCK FALSE
