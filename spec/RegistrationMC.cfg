SPECIFICATION Spec
CONSTANTS
 Max = 5
 Refine = TRUE
 Gen = FALSE
 MaxOps = 0
INVARIANTS Paired NoneLeft
CHECK_DEADLOCK FALSE
