CHECKS = {}
for _p in ("E01", "E02", "E03", "E04", "E05", "E06", "E07"):
    CHECKS[_p] = ("ekf", "check")
for _p in ("K01", "K02"):
    CHECKS[_p] = ("ekf", "check_delay")
CHECKS["K03"] = ("ekf", "check_plain")
for _p in ("F01", "F02", "F03", "F06"):
    CHECKS[_p] = ("extract", "check")

CHECKS["F04"] = ("extract", "check_order")
CHECKS["F05"] = ("extract", "check_blocks")
CHECKS["F07"] = ("extract", "check_numbers")

CHECKS["C01"] = ("conv", "check")
CHECKS["L01"] = ("loc", "check_store")
CHECKS["L02"] = ("nodes", "check_localizer")
CHECKS["L03"] = ("loc", "check_registration")
CHECKS["L04"] = ("loc", "check_localmap")
CHECKS["L05"] = ("loc", "check_knn")
CHECKS["L06"] = ("loc", "check_odometry")
CHECKS["M01"] = ("nodes", "check_map")
CHECKS["M02"] = ("nodes", "check_mapper")
CHECKS["M03"] = ("nodes", "check_path")
CHECKS["M04"] = ("nodes", "check_serving")
CHECKS["S01"] = ("pipe", "check_wiring")
CHECKS["S02"] = ("drive", "check")
CHECKS["R01"] = ("lib", "check_rotations")
CHECKS["R02"] = ("lib", "check_statistics")
CHECKS["R03"] = ("lib", "check_conversions")

NOT_APPLICABLE = {
    "A01": "needs real sensor recordings and wall-clock timing; neither a specification nor recorded behaviour of this tree can decide it",
}

_TRUST = "Bounded: exhaustive over the small specification, sampled on the real code. Trusts TLC, Reals64's double arithmetic, the ROS stand-in headers and the tolerance 1e-6. "
NOTES = {
    "E01": _TRUST + "Queue life-cycle model exhaustive; node runs replay generated histories.",
    "E02": _TRUST + "Admission decisions recomputed in TLA+ for every message of every run; margins within rounding are accepted either way.",
    "E03": _TRUST, "E04": _TRUST, "E05": _TRUST, "E06": _TRUST, "E07": _TRUST,
    "K01": _TRUST + "All interleavings up to depth 4 (5) of the fixed-lag filter against the on-time filter, with real arithmetic.",
    "K03": _TRUST + "Seen through getXelement only: the covariance is judged by the estimates that follow from it.",
    "K02": _TRUST + "Same runs, with refusals at every point.",
}
for _p in ("F01", "F02", "F03", "F06"):
    NOTES[_p] = _TRUST + "Every ring of every scan is judged by recomputing curvature, blocks, selection with all tie orders and unreliable points in TLA+; lines with a decision within rounding of its threshold are only checked for order and completeness."
for _p in ("F04", "F05", "F07"):
    NOTES[_p] = _TRUST + "Exhaustive small model, then every call of the building blocks on generated inputs and whole-node scans are judged by TLC."

NOTES["L01"] = _TRUST + "Every history of six operations over four stamps in the model; random and simulated histories on the real store."
NOTES["L03"] = _TRUST + "Every answer sequence of the problem in the control model; scripted, alignment and full registration runs replayed on the real optimizer, each step recomputed in TLA+."
NOTES["L04"] = _TRUST + "Derivatives proved against differences of the residuals on a grid; every row the code produces recomputed from its own nearest points in TLA+."
NOTES["L05"] = _TRUST + "Every answer of the tree compared with the definition of the nearest points."
NOTES["L06"] = _TRUST + "Every sequence of scans and answers in the model, replayed on the real odometry and window."
NOTES["R01"] = _TRUST + "The laws over a grid in the model; every call of the real functions recomputed from the definitions."
NOTES["R02"] = _TRUST + "Every short sequence in the model and on the real functions, longer ones sampled."
NOTES["R03"] = _TRUST + "Every element of every converted object compared with the definition."
NOTES["L02"] = _TRUST + "Every interleaving of the node's messages in the model; directed and simulated histories replayed on the real node, the work of each job being recomputed by its own checks (L03, L04)."
NOTES["M01"] = _TRUST + "Every sequence of a few motions and clouds in the model; random and directed histories on the real builder."
NOTES["M02"] = _TRUST + "Every arrival order in the model; histories replayed on the real node, the written file read back."
NOTES["M03"] = _TRUST + "Every sequence of poses in the model, replayed on both real generators."
NOTES["M04"] = _TRUST + "Start, late subscribers and restarts in the model; real nodes run on generated files and clouds."
NOTES["C01"] = "Bounded: exhaustive over three-field byte layouts, sampled on the real code. Trusts TLC, Reals64's double arithmetic, the stand-ins for rclpy and sensor_msgs, and numpy's packing of structured records."
NOTES["S02"] = "The closed loop is exhaustive over whole error steps in the model; its contract, the chain of results and the accuracy are sampled on drives of the real nodes through simulated rooms. Trusts TLC, the ROS stand-ins and the ray caster."
NOTES["S01"] = "Exhaustive over the orders of starting and delivering in the model; wiring recorded from the real nodes and launch files under the stand-ins for ROS."
