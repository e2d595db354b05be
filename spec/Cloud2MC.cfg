SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANT LayoutOk
INVARIANT ReadsBack
PROPERTY AddSound
CHECK_DEADLOCK FALSE
