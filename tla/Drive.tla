---------------------------------- MODULE Drive ----------------------------------
(* A vehicle driving through a place it has mapped.  The map is made of the features *)
(* of the scans taken at known poses; then every scan is registered from the pose    *)
(* the filter holds and its answer is fused some ticks later.  Angles are sines of   *)
(* their halves; the numbers are those of DriveMC.                                   *)
EXTENDS Mapper
(* distance and turn between a pose and the truth                                     *)
Off(x, truth) == [d |-> Apart(x, truth), a |-> HalfSine(x, truth)]
Within(o, d, a) == FLe(o.d, d) /\ FLe(o.a, a)
(* how far a start may be off, and any answer from such a start (0.5 m, 5.5 degrees); how *)
(* good nearly every answer is (0.1 m, 1 degree)                                      *)
InBasin(o) == Within(o, "0.5", "0.0479784")
Good(o) == Within(o, "0.1", "0.0087266")
(* the start the driver gives: 0.3 m, 4 degrees                                        *)
StartOk(o) == Within(o, "0.31", "0.0349")
(* a tick misses at most the motion of that tick: 0.02 m, 0.6 degrees, and noise       *)
Drifted(o, before) == Within(o, FAdd("0.025", before.d), FAdd("0.0061086", before.a))
(* the first interval in all: the filter starts at rest; 0.06 m, 1 degree              *)
Begun(o, before) == Within(o, FAdd("0.06", before.d), FAdd("0.0087266", before.a))
(* after a scan interval of at most 0.2 m in which an answer was fused: 5 % of the way to it *)
(* gone, the heading error having moved the position, 2 mm and 0.1 degrees of noise       *)
Corrected(o, before, answer) ==
  Within(o, FSumAbs(<<FMul("0.95", before.d), FMul("0.4", before.a), FMul("0.05", answer.d), "0.002">>), FSumAbs(<<FMul("0.95", before.a), FMul("0.05", answer.a), "0.0008727">>))
(* the features are points the sensor saw                                              *)
Xyz(p) == <<F32(p[1]), F32(p[2]), F32(p[3])>>
Seen(cloud, sensor) == LET all == TLCEval({Xyz(sensor[i]) : i \in 1..Len(sensor)}) IN \A i \in 1..Len(cloud) : Xyz(cloud[i]) \in all
================================================================================
