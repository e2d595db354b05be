SPECIFICATION Spec
CONSTANTS
 Max = 6
 On = {"reg", "stereo"}
 Gen = FALSE
 MaxOps = 0
INVARIANTS InOrder OwnState Complete NoneLeft
CHECK_DEADLOCK FALSE
