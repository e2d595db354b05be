SPECIFICATION Spec
CONSTANTS
 MaxState = 2
 Ids = {1, 5}
 MaxOps = 6
 Windows = {1, 99}
 Gen = FALSE
 Mix <- NoMix
INVARIANT OnceEach
INVARIANT AllHanded
INVARIANT ValuesFirst
INVARIANT RemovedOnce
INVARIANT RemovedAreOptimised
INVARIANT NeverObservedLater
INVARIANT LaterKept
INVARIANT OneLandmark
PROPERTY MargMonotone
CHECK_DEADLOCK FALSE
