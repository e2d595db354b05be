SPECIFICATION Spec
CONSTANTS
 MaxScan = 4
 Span = {0, 1, 2, 3, 4}
 Threshold = 1
 N = 2
 Gen = FALSE
 MaxOps = 0
 Past = FALSE
INVARIANTS OncePerScan FollowsCorrections FirstIsKey NothingMissed SomeNearest RecentIsLatest
CHECK_DEADLOCK FALSE
