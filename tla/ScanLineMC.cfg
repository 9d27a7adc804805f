SPECIFICATION Spec
CONSTANTS N = 6 Pad = 1 NB = 1 Ranges = {1, 3, 4} EdgeThr = 4 SurfThr = 9 DistThr = 2 MinR = 2 MaxR = 7 Ratio = 40 Gen = FALSE
INVARIANTS SelectionOk BlocksPartition UnreliableOk KeepOk
CHECK_DEADLOCK FALSE
