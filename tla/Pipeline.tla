-------------------------------- MODULE Pipeline ---------------------------------
(* What is launched together: nodes with named inputs and outputs.  A launched node *)
(* is [package, name, namespace, remaps, params, inputs, outputs, declared]; an     *)
(* endpoint is [topic, absolute, type, rel, dur, hist, depth].                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Full(ns, absolute, base) == IF absolute \/ ns = "" THEN "/" \o base ELSE "/" \o ns \o "/" \o base
(* the first rule that matches the full name renames it                              *)
Resolved(node, e) ==
  LET full == Full(node.namespace, e.absolute, e.topic)
      hits == {k \in 1..Len(node.remaps) : Full(node.namespace, node.remaps[k].absolute, node.remaps[k].from) = full}
      k == CHOOSE k \in hits : \A j \in hits : k <= j IN
  IF hits = {} THEN full ELSE Full(node.namespace, node.remaps[k].to_absolute, node.remaps[k].to)
(* offered and requested quality of service agree                                    *)
Compatible(o, i) ==
  /\ o.type = i.type
  /\ i.rel = "reliable" => o.rel = "reliable"
  /\ i.dur = "transient_local" => o.dur = "transient_local"
(* every pair of endpoints of one topic                                              *)
Meetings(nodes) ==
  {x \in UNION {UNION {{<<a, o, b, i>> : o \in 1..Len(nodes[a].outputs), i \in 1..Len(nodes[b].inputs)} : a \in 1..Len(nodes)} : b \in 1..Len(nodes)} :
     Resolved(nodes[x[1]], nodes[x[1]].outputs[x[2]]) = Resolved(nodes[x[3]], nodes[x[3]].inputs[x[4]])}
Link(nodes, x) == <<nodes[x[1]].package, nodes[x[1]].outputs[x[2]].topic, nodes[x[3]].package, nodes[x[3]].inputs[x[4]].topic>>
Links(nodes) == {Link(nodes, x) : x \in Meetings(nodes)}
AllCompatible(nodes) == \A x \in Meetings(nodes) : Compatible(nodes[x[1]].outputs[x[2]], nodes[x[3]].inputs[x[4]])
(* nothing is dropped between the nodes: links are reliable at both ends and the localizer queues scans without limit *)
Lossless(nodes) == \A x \in Meetings(nodes) :
  LET i == nodes[x[3]].inputs[x[4]] IN
  /\ i.rel = "reliable" /\ nodes[x[1]].outputs[x[2]].rel = "reliable"
  /\ (nodes[x[3]].package = "lidar_feature_localization" /\ i.topic \in {"scan_edge", "scan_surface"}) => i.hist = "keep_all"
(* the topic of an endpoint of a package                                             *)
TopicIn(nodes, package, base) ==
  {Resolved(nodes[a], nodes[a].inputs[i]) : <<a, i>> \in {<<a, i>> \in (1..Len(nodes)) \X (1..20) : nodes[a].package = package /\ i <= Len(nodes[a].inputs) /\ nodes[a].inputs[i].topic = base}}
TopicOut(nodes, name, base) ==
  {Resolved(nodes[a], nodes[a].outputs[o]) : <<a, o>> \in {<<a, o>> \in (1..Len(nodes)) \X (1..20) : nodes[a].name = name /\ o <= Len(nodes[a].outputs) /\ nodes[a].outputs[o].topic = base}}
(* parameters are set only where the node declares one of that type                   *)
ParamsTaken(node) ==
  \A k \in 1..Len(node.params) : \/ node.params[k].name = "use_sim_time" /\ node.params[k].type = "bool"
                                 \/ \E d \in 1..Len(node.declared) : node.declared[d].name = node.params[k].name /\ node.declared[d].type = node.params[k].type
Packages(nodes) == [k \in 1..Len(nodes) |-> nodes[k].package]

(* the two pipelines                                                                  *)
Front == {<<"point_type_converter", "points_converted", "lidar_feature_extraction", "points_raw">>}
LocalizationLinks == Front \cup {
  <<"lidar_feature_extraction", "scan_edge", "lidar_feature_localization", "scan_edge">>,
  <<"lidar_feature_extraction", "scan_surface", "lidar_feature_localization", "scan_surface">>,
  <<"lidar_feature_localization", "estimated_pose", "ekf_localizer", "in_pose_with_covariance">>,
  <<"ekf_localizer", "ekf_odom", "lidar_feature_localization", "optimization_start_odom">>}
MappingLinks == Front \cup {<<"lidar_feature_extraction", "scan_edge", "lidar_feature_mapping", "scan_edge">>}
================================================================================
