INIT Init
NEXT Next
CONSTANT MaxN = 4
INVARIANTS Edges SelfId Reverse Chain
CHECK_DEADLOCK FALSE
