SPECIFICATION Spec
CONSTANTS
 Stereo = FALSE
 Baro = TRUE
 MaxImu = 999
 MaxScan = 99
 MaxFrame = 99
 MaxBaro = 99
 Gaps = {1, 2, 3}
 ScanGaps = {6, 7, 8, 10, 13}
 Sweeps = {1, 4, 5, 6}
 Gen = TRUE
 MaxOps = 70
CHECK_DEADLOCK FALSE
