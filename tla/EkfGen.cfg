SPECIFICATION Spec
CONSTANTS
 PoseSteps = 3
 TwistSteps = 2
 MaxMsg = 1000
 MaxTick = 1000
 Depth = 26
 Gen = TRUE
 IpClasses = {"ok"}
 PoseClasses = {"near"}
 TwistClasses = {"near"}
 TickClasses = {"nominal"}
CHECK_DEADLOCK FALSE
