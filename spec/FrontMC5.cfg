SPECIFICATION Spec
CONSTANTS
 Stereo = TRUE
 Baro = FALSE
 MaxImu = 5
 MaxScan = 3
 MaxFrame = 3
 MaxBaro = 0
 Gaps = {1, 3}
 ScanGaps = {2, 3}
 Sweeps = {1, 2}
 Gen = FALSE
 MaxOps = 0
INVARIANTS StatesRise StatesRight Cover NoneLost Shared PressRight PressAll Live
CHECK_DEADLOCK FALSE
