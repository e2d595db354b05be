SPECIFICATION Spec
CONSTANTS
  Topics = {1, 2, 3}
  Paths = {0, 1, 2}
  Clouds = 4
  Gen = FALSE
  MaxOps = 0
INVARIANTS TypeOK Refused Done
CHECK_DEADLOCK FALSE
