SPECIFICATION Spec
CONSTANTS
  Frames = 0
  Xs = {0}
  Ys = {0}
  MaxExt = 0
  Gen = TRUE
  MaxOps = 12
CHECK_DEADLOCK FALSE
