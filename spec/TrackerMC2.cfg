SPECIFICATION Spec
CONSTANTS
  Frames = 2
  Xs = {0, 4, 8}
  Ys = {0}
  MaxExt = 2
  Gen = FALSE
  MaxOps = 0
INVARIANTS Unique Ordered NeverReused Geometry
PROPERTY Life
CHECK_DEADLOCK FALSE
