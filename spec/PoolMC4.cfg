SPECIFICATION Spec
CONSTANTS
  M = 4
  Spare = 0
  Gen = FALSE
  MaxOps = 0
INVARIANTS TypeOK InOrder Capacity
