------------------------------ MODULE PipelineTrace ------------------------------
EXTENDS Pipeline, TraceFile
VARIABLES sc, l, st
Arg(p, name, default) ==
  IF \E k \in 1..Len(p.args) : p.args[k].name = name
  THEN LET v == p.args[CHOOSE k \in 1..Len(p.args) : p.args[k].name = name].full IN v ELSE default
Count(nodes, package) == Cardinality({k \in 1..Len(nodes) : nodes[k].package = package})
Value(node, name) == IF \E k \in 1..Len(node.params) : node.params[k].name = name THEN node.params[CHOOSE k \in 1..Len(node.params) : node.params[k].name = name].value ELSE ""
Front_(p, nodes) ==
  /\ TopicIn(nodes, "point_type_converter", "points_raw") = {Arg(p, "input_sensor_points_topic", "/points_raw")}
  /\ AllCompatible(nodes) /\ Lossless(nodes)
  /\ \A k \in 1..Len(nodes) : ParamsTaken(nodes[k])
Localization(p, nodes) ==
  /\ \A k \in {"point_type_converter", "lidar_feature_extraction", "lidar_feature_localization", "ekf_localizer"} : Count(nodes, k) = 1
  /\ Count(nodes, "lidar_feature_map_loader") = 2 /\ Len(nodes) = 6
  /\ Front_(p, nodes)
  /\ Links(nodes) = LocalizationLinks
  /\ TopicIn(nodes, "ekf_localizer", "initialpose") = {Arg(p, "input_initial_pose_topic", "/initialpose3d")}
  /\ TopicIn(nodes, "ekf_localizer", "in_twist_with_covariance") = {Arg(p, "input_twist_topic", "/twist")}
  /\ TopicIn(nodes, "ekf_localizer", "in_pose_with_covariance") = {Arg(p, "lidar_feature_pose_topic", "/lidar_feature_pose")}
  /\ TopicIn(nodes, "lidar_feature_localization", "optimization_start_odom") = {Arg(p, "ekf_odometry", "/ekf_odom")}
  /\ {<<Value(nodes[k], "pcd_filename"), TopicOut(nodes, nodes[k].name, "map_topic")>> : k \in {k \in 1..Len(nodes) : nodes[k].package = "lidar_feature_map_loader"}}
       = {<<"maps/edge.pcd", {Arg(p, "edge_map_topic", "/edge_map")}>>, <<"maps/surface.pcd", {Arg(p, "surface_map_topic", "/surface_map")}>>}
Mapping(p, nodes) ==
  /\ \A k \in {"point_type_converter", "lidar_feature_extraction", "lidar_feature_mapping"} : Count(nodes, k) = 1
  /\ Len(nodes) = 3
  /\ Front_(p, nodes)
  /\ Links(nodes) = MappingLinks
  /\ TopicIn(nodes, "lidar_feature_mapping", "pose") = {Arg(p, "input_pose_topic", "/pose")}
WSt(p, s, e) ==
  CASE e.ev = "Launch" -> IF (IF p.kind = "mapping" THEN Mapping(p, e.nodes) ELSE Localization(p, e.nodes)) THEN {"up"} ELSE {}
    [] OTHER -> {}
WStart(p) == "down"
WWhy(p, s, e) == IF e.ev = "Launch" THEN <<"links", Links(e.nodes), "compatible", AllCompatible(e.nodes), "lossless", Lossless(e.nodes), "params taken", [k \in 1..Len(e.nodes) |-> ParamsTaken(e.nodes[k])], "args", p.args>> ELSE <<e>>
T == INSTANCE TraceLib WITH St <- WSt, Start <- WStart, Why <- WWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
