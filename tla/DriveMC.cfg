SPECIFICATION Spec
CONSTANTS
  Dist0 = 360
  Turn0 = 250
  BasinD = 500
  BasinT = 275
  GoodD = 100
  GoodT = 50
  Apart = 7
  Keep = 95
  NoiseD = 2
  NoiseT = 5
  Lever = 14
  MaxLate = 1
INVARIANTS NeverLost InBasin
CHECK_DEADLOCK FALSE
