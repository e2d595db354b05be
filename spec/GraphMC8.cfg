SPECIFICATION Spec
CONSTANTS
 MaxState = 3
 Ids = {1, 5}
 MaxOps = 8
 Windows = {1, 99}
 Gen = FALSE
 Mix <- NoMix
INVARIANT OnceEach
INVARIANT AllHanded
INVARIANT ValuesFirst
INVARIANT RemovedOnce
INVARIANT RemovedAreOptimised
INVARIANT NeverObservedLater
INVARIANT LaterKept
INVARIANT OneLandmark
PROPERTY MargMonotone
CHECK_DEADLOCK FALSE
