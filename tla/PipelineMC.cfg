SPECIFICATION Spec
CONSTANTS
  MaxScans = 2
  MaxTicks = 2
INVARIANTS OnlyScans NoneBeforeInitialPose FusedArePublished
PROPERTIES EveryOwedIsFused EveryoneSeesTheMap
CHECK_DEADLOCK FALSE
