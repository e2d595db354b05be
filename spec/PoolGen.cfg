SPECIFICATION Spec
CONSTANTS
  M = 4
  Spare = 2
  Gen = TRUE
  MaxOps = 70
INVARIANTS TypeOK InOrder Capacity
CHECK_DEADLOCK FALSE
