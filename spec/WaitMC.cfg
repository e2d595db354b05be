SPECIFICATION Fair
CONSTANTS
 N = 3
 Gen = FALSE
 MaxOps = 0
INVARIANTS Exclusive Answer Released
PROPERTY Stops
CHECK_DEADLOCK FALSE
