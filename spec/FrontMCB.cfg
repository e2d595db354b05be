SPECIFICATION Spec
CONSTANTS
 Stereo = FALSE
 Baro = TRUE
 MaxImu = 6
 MaxScan = 4
 MaxFrame = 0
 MaxBaro = 4
 Gaps = {1, 3}
 ScanGaps = {2}
 Sweeps = {1}
 Gen = FALSE
 MaxOps = 0
INVARIANTS StatesRise StatesRight Cover NoneLost Shared PressRight PressAll Live
CHECK_DEADLOCK FALSE
