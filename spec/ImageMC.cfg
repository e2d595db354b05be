SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxH = 3
  Steps = 3
INVARIANTS Consistent NothingLost Shapes Undone
CHECK_DEADLOCK FALSE
