"""The launched pipeline (S01, S02): wiring of the real nodes under the launch files, and a chain of the real nodes on a simulated room."""
import math
import os
from . import core, ekf, extract, nodes
from .core import num
from .extract import f32
from .loc import nums, qabout, qmul, qrot, vec, cfg

LAUNCH = "lidar_feature_launch/launch/%s.launch.py"
ARGS = {"localization": ["input_initial_pose_topic", "input_twist_topic", "input_sensor_points_topic", "lidar_feature_pose_topic", "edge_map_topic", "surface_map_topic", "estimated_path_topic", "ekf_odometry"],
        "mapping": ["input_sensor_points_topic", "input_pose_topic", "output_path_topic"]}
DOT = nodes.pcd([["0", "0", "0"], ["1", "1", "1"], ["2", "0", "1"]])
EMPTY = {"steps": []}
PLAIN = {   # package -> (binary, scenario under which it comes up)
    "lidar_feature_extraction": (extract.node_binary, {"params": {}}),
    "lidar_feature_localization": (nodes.loc_binary, {"params": {}, "files": {"maps/edge.pcd": DOT, "maps/surface.pcd": DOT}}),
    "lidar_feature_mapping": (nodes.mapper_binary, {"params": {}, "files": {"maps/.keep": ""}}),
    "lidar_feature_map_loader": (nodes.loader_binary, {"params": {"pcd_filename": "m.pcd"}, "files": {"m.pcd": DOT}}),
    "ekf_localizer": (ekf.node_binary, {"params": {}}),
}


def endpoints(ctx):
    """what every real node subscribes, publishes and declares"""
    out = {}
    for p, (b, s) in PLAIN.items():
        t = core.run_harness(b(), [dict(s, id=p, steps=[])], ctx.scratch)[0]
        e = next((e for e in t["events"] if e["ev"] == "Start"), None)
        out[p] = {k: e[k] for k in ("inputs", "outputs", "declared")} if e else {"inputs": [], "outputs": [], "declared": []}
    t = core.run_harness(core.VERIF + "/harness/conv_main.py", [{"id": "c", "clouds": []}], ctx.scratch, env={"VF_REPO": core.REPO})[0]["events"][0]
    out["point_type_converter"] = {"inputs": t.get("subs", []), "outputs": t.get("pubs", []), "declared": []}
    return out


def wiring(ctx):
    rng = ctx.rng
    ends = endpoints(ctx)
    sc = []
    for kind, args in ARGS.items():
        for i in range(ctx.n(20, 200)):
            pick = [a for a in args if i and (i == 1 or rng.random() < 0.5)]
            sc.append({"id": "%s%d" % (kind, i), "file": LAUNCH % kind, "args": {a: rng.choice(["/%s_%d", "/ns/%s_%d"]) % (a, i) for a in pick}})

    def post(traces):
        for t in traces:
            for a in t["params"]["args"]:
                a["full"] = a["value"]
            t["params"]["kind"] = t["id"].rstrip("0123456789")
            for e in t["events"]:
                for n in e.get("nodes", []):
                    n.update(ends.get(n["package"], {"inputs": [], "outputs": [], "declared": []}))
        return traces
    ctx.conform("PipelineTrace", core.VERIF + "/harness/launch_main.py", sc, "launch files with the real nodes' endpoints", env={"VF_REPO": core.REPO}, post=post)


def check_wiring(ctx):
    ctx.model(core.tlc_exhaust("PipelineMC", workers="8", cfg_text=cfg("PipelineMC", MaxScans=ctx.n(4, 6), MaxTicks=ctx.n(2, 3))), "PipelineMC: every order of starting and delivering")
    wiring(ctx)
