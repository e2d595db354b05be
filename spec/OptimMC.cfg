SPECIFICATION Spec
CONSTANTS
 Max = 4
 On = {"imu", "reg", "stereo", "baro"}
 Gen = FALSE
 MaxOps = 0
INVARIANTS InOrder OwnState Complete NoneLeft
CHECK_DEADLOCK FALSE
