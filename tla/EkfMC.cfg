SPECIFICATION Spec
CONSTANTS
 PoseSteps = 2
 TwistSteps = 1
 MaxMsg = 4
 MaxTick = 4
 Depth = 0
 Gen = FALSE
 IpClasses = {"ok", "unknown"}
 PoseClasses = {"near", "nan"}
 TwistClasses = {"near", "far"}
 TickClasses = {"nominal", "back"}
INVARIANTS AtMostLife OncePerTick Consecutive QueuedIffAlive FifoPosesFirst SilentBeforeStart InadmissibleNeverFused OnePredictPerReport
CHECK_DEADLOCK FALSE
