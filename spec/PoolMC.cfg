SPECIFICATION Spec
CONSTANTS
  M = 3
  Spare = 0
  Gen = FALSE
  MaxOps = 0
INVARIANTS TypeOK InOrder Capacity
