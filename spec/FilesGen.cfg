SPECIFICATION Spec
CONSTANTS
  Topics = {1, 2, 3}
  Paths = {0, 1, 2, 3}
  Clouds = 5
  Gen = TRUE
  MaxOps = 18
INVARIANTS TypeOK Refused Done
CHECK_DEADLOCK FALSE
