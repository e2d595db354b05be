SPECIFICATION Spec
CONSTANTS
 MaxState = 9
 Ids = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 17, 40}
 MaxOps = 34
 Windows = {99}
 Gen = TRUE
 Mix <- MixFrames
CHECK_DEADLOCK FALSE
