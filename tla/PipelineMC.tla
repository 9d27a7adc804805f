------------------------------- MODULE PipelineMC --------------------------------
(* The localization pipeline running: nodes start in any order, every link is a      *)
(* queue of its own, messages sent before the receiver is up are lost unless they    *)
(* are retained (maps).  Which links exist is taken from Pipeline.                    *)
EXTENDS Pipeline
CONSTANTS MaxScans, MaxTicks
VARIABLES up, chan, scans, ticks, running, prior, edges, surfaces, results, fused, owed, map
vars == <<up, chan, scans, ticks, running, prior, edges, surfaces, results, fused, owed, map>>
Nodes == {"point_type_converter", "lidar_feature_extraction", "lidar_feature_localization", "ekf_localizer", "lidar_feature_map_loader", "viewer"}
L == LocalizationLinks
ToMap == <<"lidar_feature_map_loader", "map_topic", "viewer", "map">>
Sensor == <<"sensor", "points", "point_type_converter", "points_raw">>
All == L \cup {ToMap, Sensor}
(* messages put on every link that leaves an output; a receiver that is not up misses them *)
Put(c, node, out, m) == [k \in All |-> IF k[1] = node /\ k[2] = out /\ k[3] \in up THEN Append(c[k], m) ELSE c[k]]
Init == /\ up = {} /\ chan = [k \in All |-> <<>>] /\ scans = 0 /\ ticks = 0 /\ running = FALSE /\ prior = FALSE
        /\ edges = {} /\ surfaces = {} /\ results = <<>> /\ fused = <<>> /\ owed = {} /\ map = FALSE
Begin(n) == /\ n \notin up /\ up' = up \cup {n}
            /\ chan' = IF n = "lidar_feature_map_loader" THEN Put(chan, n, "map_topic", 0)
                       ELSE IF n = "viewer" /\ "lidar_feature_map_loader" \in up THEN [chan EXCEPT ![ToMap] = Append(@, 0)] ELSE chan
            /\ UNCHANGED <<scans, ticks, running, prior, edges, surfaces, results, fused, owed, map>>
Scan == /\ scans < MaxScans /\ scans' = scans + 1
        /\ chan' = Put(chan, "sensor", "points", scans + 1)
        /\ owed' = IF (Nodes \ {"viewer", "lidar_feature_map_loader"}) \subseteq up /\ prior THEN owed \cup {scans + 1} ELSE owed
        /\ UNCHANGED <<up, ticks, running, prior, edges, surfaces, results, fused, map>>
Got(k) == chan[k] # <<>> /\ k[3] \in up
Rest(k) == [chan EXCEPT ![k] = Tail(@)]
Convert == \E k \in All : /\ k[3] = "point_type_converter" /\ Got(k)
                          /\ chan' = Put(Rest(k), "point_type_converter", "points_converted", Head(chan[k]))
                          /\ UNCHANGED <<up, scans, ticks, running, prior, edges, surfaces, results, fused, owed, map>>
Extract == \E k \in All : /\ k[3] = "lidar_feature_extraction" /\ Got(k)
                          /\ chan' = Put(Put(Rest(k), "lidar_feature_extraction", "scan_edge", Head(chan[k])), "lidar_feature_extraction", "scan_surface", Head(chan[k]))
                          /\ UNCHANGED <<up, scans, ticks, running, prior, edges, surfaces, results, fused, owed, map>>
(* a scan arrives at the localizer; with its partner there and a prior known it is answered *)
Match == \E k \in All :
  /\ k[3] = "lidar_feature_localization" /\ k[4] \in {"scan_edge", "scan_surface"} /\ Got(k)
  /\ LET m == Head(chan[k])
         e == IF k[4] = "scan_edge" THEN edges \cup {m} ELSE edges
         s == IF k[4] = "scan_surface" THEN surfaces \cup {m} ELSE surfaces
         pair == m \in e /\ m \in s IN
     /\ edges' = IF pair THEN {x \in e : x > m} ELSE e
     /\ surfaces' = IF pair THEN {x \in s : x > m} ELSE s
     /\ results' = IF pair /\ prior THEN Append(results, m) ELSE results
     /\ chan' = IF pair /\ prior THEN Put(Rest(k), "lidar_feature_localization", "estimated_pose", m) ELSE Rest(k)
  /\ UNCHANGED <<up, scans, ticks, running, prior, fused, owed, map>>
Prior == \E k \in All : /\ k[4] = "optimization_start_odom" /\ Got(k) /\ prior' = TRUE /\ chan' = Rest(k)
                        /\ UNCHANGED <<up, scans, ticks, running, edges, surfaces, results, fused, owed, map>>
InitialPose == /\ "ekf_localizer" \in up /\ ~running /\ running' = TRUE
               /\ UNCHANGED <<up, chan, scans, ticks, prior, edges, surfaces, results, fused, owed, map>>
Tick == /\ running /\ ticks < MaxTicks /\ ticks' = ticks + 1
        /\ chan' = Put(chan, "ekf_localizer", "ekf_odom", 0)
        /\ UNCHANGED <<up, scans, running, prior, edges, surfaces, results, fused, owed, map>>
Fuse == \E k \in All : /\ k[4] = "in_pose_with_covariance" /\ Got(k) /\ fused' = Append(fused, Head(chan[k])) /\ chan' = Rest(k)
                       /\ UNCHANGED <<up, scans, ticks, running, prior, edges, surfaces, results, owed, map>>
Show == /\ Got(ToMap) /\ map' = TRUE /\ chan' = Rest(ToMap)
        /\ UNCHANGED <<up, scans, ticks, running, prior, edges, surfaces, results, fused, owed>>
Inner == Convert \/ Extract \/ Match \/ Prior \/ Fuse \/ Show
Next == (\E n \in Nodes : Begin(n)) \/ Scan \/ InitialPose \/ Tick \/ Inner
Spec == Init /\ [][Next]_vars /\ WF_vars(Convert) /\ WF_vars(Extract) /\ WF_vars(Match) /\ WF_vars(Fuse) /\ WF_vars(Show) /\ \A n \in Nodes : WF_vars(Begin(n))
Range(s) == {s[i] : i \in 1..Len(s)}
Rising(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
OnlyScans == Range(results) \subseteq 1..scans /\ Rising(results)
NoneBeforeInitialPose == results # <<>> => running /\ ticks > 0
FusedArePublished == Rising(fused) /\ Range(fused) \subseteq Range(results)
EveryOwedIsFused == \A n \in 1..MaxScans : (n \in owed) ~> (n \in Range(fused))
EveryoneSeesTheMap == <>map
================================================================================
