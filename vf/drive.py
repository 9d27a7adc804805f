"""S02: the real nodes one after another on a vehicle driving through a simulated room - converter, extraction, mapping,
map loading, and then localization and filter feeding each other."""
import math
import multiprocessing
import random
from . import core, ekf, extract, nodes
from .conv import KNOWN
from .core import T, num
from .extract import f32
from .loc import cfg, nums, qabout, qmul, qrot

LAUNCHED = {"convolution_padding": 2, "neighbor_degree_threshold": "3.0", "distance_diff_threshold": "0.3", "parallel_beam_min_range_ratio": "0.02",
            "edge_threshold": "50.0", "min_range": "0.1", "max_range": "1000.0", "n_blocks": 6}
MS = 10 ** 6
BASIN = (0.5, 5.5)           # metres and degrees a start may be off (Drive.tla)
PROBES = 16


class Room:
    """four walls, floor, ceiling and pillars; the vehicle goes round on a circle"""

    def __init__(self, rng):
        self.rng = rng
        self.w, self.d, self.h = rng.uniform(15, 24), rng.uniform(13, 19), rng.uniform(5, 8)
        self.r = rng.uniform(2.5, 3.5)
        self.box = []
        while len(self.box) < 8:
            x, y, s = rng.uniform(-self.w / 2 + 1.2, self.w / 2 - 1.2), rng.uniform(-self.d / 2 + 1.2, self.d / 2 - 1.2), rng.uniform(0.3, 0.9)
            if abs(math.hypot(x, y) - self.r) > 1.5 and all(math.hypot(x - (b[0] + b[1]) / 2, y - (b[2] + b[3]) / 2) > 1.8 for b in self.box):
                self.box.append((x - s / 2, x + s / 2, y - s / 2, y + s / 2))
        self.turn = rng.choice([-1, 1])
        self.z = rng.uniform(1.4, 2.0)

    def cast(self, o, u):
        best = 1e9
        for k, lo, hi in ((0, -self.w / 2, self.w / 2), (1, -self.d / 2, self.d / 2), (2, 0, self.h)):
            if abs(u[k]) > 1e-12:
                best = min(best, ((hi if u[k] > 0 else lo) - o[k]) / u[k])
        for b in self.box:
            t0, t1 = 0.0, 1e9
            for k in (0, 1):
                if abs(u[k]) > 1e-12:
                    a, c = (b[2 * k] - o[k]) / u[k], (b[2 * k + 1] - o[k]) / u[k]
                    t0, t1 = max(t0, min(a, c)), min(t1, max(a, c))
                elif not b[2 * k] <= o[k] <= b[2 * k + 1]:
                    t0 = 1e9
            if 0 < t0 <= t1:
                best = min(best, t0)
        return best

    def at(self, s, r=None):
        """the pose after s metres of the circle"""
        r = r or self.r
        a = self.turn * s / r
        return qabout((0, 0, 1), math.remainder(a + self.turn * math.pi / 2, 2 * math.pi)), [r * math.cos(a), r * math.sin(a), self.z]

    def scan(self, pose, beams=360, rings=16):
        q, o = pose
        out = []
        for k in range(rings):
            el = math.radians(-15 + 30 * k / (rings - 1))
            for i in range(beams):
                a = -math.pi + 2 * math.pi * (i + 0.5) / beams
                v = [math.cos(el) * math.cos(a), math.cos(el) * math.sin(a), math.sin(el)]
                t = self.cast(o, qrot(q, v)) + self.rng.gauss(0, 0.004)
                out.append([f32(c * t) for c in v] + [k])
        for i in self.rng.sample(range(len(out)), len(out) // 100):      # nothing returned
            out[i][:3] = [0.0, 0.0, 0.0]
        return out


def sensor_cloud(rng, layout, pts, ns):
    fields, step = layout
    rows = []
    for p in pts:
        v = {"x": num(p[0]), "y": num(p[1]), "z": num(p[2]), "ring": "%d" % p[3], "intensity": "%d" % rng.randint(0, 100)}
        rows.append([v.get(f[0], "%d" % rng.randint(0, 100)) for f in fields])
    return {"fields": fields, "step": step, "big": False, "points": rows, "header": {"sec": ns // 10 ** 9, "nsec": ns % 10 ** 9, "frame": "lidar"}, "height": 1, "noise": rng.randrange(2 ** 31), "times": 1}


def plain(v):
    return num(float.fromhex(v)) if isinstance(v, str) else "%d" % v


def first(events, ev, key="ev"):
    return [e for e in events if e[key] == ev]


def run(binary, sc, ctx, env=None):
    t = core.run_harness(binary, [sc], ctx.scratch, 120, env)[0]["events"]
    return t


def cloud_step(topic, m):
    return {"op": "msg", "topic": topic, "type": "PointCloud2", "msg": {"header": m["header"], "fields": m["fields"], "point_step": m["step"], "points": m["points"]}}


def features(ctx, rng, scans, layout):
    """scans (ns, points) through converter and extraction -> per scan {scan_edge, scan_surface} or None"""
    clouds = [sensor_cloud(rng, layout, p, ns) for ns, p in scans]
    ev = run(core.VERIF + "/harness/conv_main.py", {"id": "c", "clouds": clouds}, ctx, {"VF_REPO": core.REPO})
    steps = []
    for e in first(ev, "Cloud"):
        for o in e["out"]:
            m = o["msg"]
            steps.append({"op": "msg", "topic": "points_raw", "type": "PointCloud2", "msg": {
                "header": {"stamp": {"sec": m["header"]["sec"], "nsec": m["header"]["nsec"]}, "frame": m["header"]["frame"]},
                "fields": [[f["name"], f["offset"], f["datatype"], f["count"]] for f in m["fields"] if f["name"] != "padding"], "point_step": m["step"], "points": [[plain(v) for v in r] for r in m["rows"]]}})
    ev = run(extract.node_binary(), {"id": "x", "params": LAUNCHED, "steps": steps}, ctx)
    got = [{o["topic"]: o["msg"] for o in e["out"]} for e in first(ev, "Msg")]
    return [g if len(got) == len(scans) and {"scan_edge", "scan_surface"} <= set(g) else None for g in got] if got else [None] * len(scans)


def msg_pose(pose):
    return {"q": nums(pose[0]), "p": nums(pose[1])}


def strip(m):
    k = [f[0] for f in m["fields"]]
    at = [k.index(c) for c in "xyz"]
    return [[p[i] for i in at] for p in m["points"]]


def build_map(ctx, feats, poses, stamps, topic):
    """the real mapper on one of the two clouds; what its file holds"""
    steps = []
    for f, p, ns in zip(feats, poses, stamps):
        steps.append(cloud_step("scan_edge", f[topic]))
        steps.append({"op": "msg", "topic": "pose", "type": "PoseStamped", "msg": {"header": {"stamp": T(ns), "frame": "map"}, "pose": msg_pose(p)}})
    ev = run(nodes.mapper_binary(), {"id": "m", "params": {}, "files": {"maps/.keep": ""}, "steps": steps}, ctx)
    x = first(ev, "Exit")
    return x[0]["extra"]["file"] if x and "extra" in x[0] else {"exists": False, "fields": [], "points": []}


def serve(ctx, text):
    ev = run(nodes.loader_binary(), {"id": "l", "params": {"pcd_filename": "m.pcd"}, "files": {"m.pcd": text}, "steps": []}, ctx)
    return [strip(o["msg"]) for e in ev for o in e.get("out", []) if o["topic"] == "map_topic"]


def diag(*v):
    c = [0.0] * 36
    for i, x in enumerate(v):
        c[7 * i] = x
    return nums(c)


def aside(rng, pose, d, deg):
    """a pose off by d metres and deg degrees"""
    a = rng.uniform(-math.pi, math.pi)
    q, p = pose
    return qmul(q, qabout((0, 0, 1), math.radians(deg * rng.choice([-1, 1])))), [p[0] + d * math.cos(a), p[1] + d * math.sin(a), p[2]]


def odometry(header, pose, child="base_link"):
    return {"op": "msg", "topic": "optimization_start_odom", "type": "Odometry", "msg": {"header": header, "child": child, "pose": pose}}


def answers(ctx, files, steps):
    ev = run(nodes.loc_binary(), {"id": "l", "params": {}, "files": files, "steps": steps}, ctx)
    return [{"header": o["msg"]["header"], "pose": o["msg"]["pose"], "cov": o["msg"]["cov"]} for e in ev for o in e.get("out", []) if o["topic"] == "estimated_pose"]


def probes(ctx, rng, feats, poses, stamps, files, n):
    """scans registered from starts anywhere in the basin"""
    out, steps = [], []
    for j in range(n):
        k = rng.randrange(len(poses))
        ns = 5000 * 10 ** 9 + j * 200 * MS
        start = aside(rng, poses[k], BASIN[0] * 0.999 * rng.choice([1, rng.random()]), BASIN[1] * 0.999 * rng.choice([1, rng.random()]))
        steps.append(odometry({"stamp": T(ns - 50 * MS), "frame": "map"}, msg_pose(start)))
        for t in rng.sample(["scan_edge", "scan_surface"], 2):
            m = dict(feats[k][t], header=dict(feats[k][t]["header"], stamp=T(ns)))
            steps.append(cloud_step(t, m))
        out.append({"ev": "Ask", "stamp": T(ns), "from": msg_pose(start), "truth": msg_pose(poses[k])})
    got = {(m["header"]["stamp"]["sec"], m["header"]["stamp"]["nsec"]): m for m in answers(ctx, files, steps)}
    ev = []
    for a in out:
        ev.append(a)
        m = got.pop((a["stamp"]["sec"], a["stamp"]["nsec"]), None)
        if m:
            ev.append({"ev": "Answer", "msg": {"header": m["header"], "pose": m["pose"]}})
    return ev + [{"ev": "Answer", "msg": m} for m in got.values()]


def closed_loop(ctx, rng, room, files, n, layout):
    """n scans localized while the filter, fed with the answers, gives every start"""
    dt, speed, r0 = 200 * MS, rng.uniform(0.5, 1.0), room.r + rng.uniform(-0.25, 0.25)
    s0, start = rng.uniform(0, 20), 2000 * 10 ** 9
    at = lambda ns: room.at(s0 + speed * (ns - start) * 1e-9, r0)
    stamps = [start + dt * (k + 1) for k in range(n)]
    feats = features(ctx, rng, [(ns, room.scan(at(ns))) for ns in stamps], layout)
    w0 = aside(rng, at(start), rng.uniform(0.05, 0.3), rng.uniform(0, 4))
    ev = [{"ev": "Drive", "start": msg_pose(w0), "truth": msg_pose(at(start))}]
    if None in feats:
        return ev + [{"ev": "Stop"}]
    steps = [{"op": "msg", "topic": "initialpose", "type": "PoseWithCovarianceStamped", "tf": {"ok": True, "pose": {"p": ["0", "0", "0"], "q": ["1", "0", "0", "0"]}},
              "msg": {"header": {"stamp": T(start), "frame": "map"}, "pose": msg_pose(w0), "cov": diag(0.1, 0.1, 0.1, 0.01, 0.01, 0.01)}}]
    loc, odom, got, waiting, told = [], [], [], [], 0
    late = rng.choice([0, 1, 2, 4])          # ticks until an answer reaches the filter
    for k in range(n):
        for j in range(10):
            ns = stamps[k] - dt + (j + 1) * dt // 10
            if j == late:
                steps += waiting
                waiting = []
            steps.append({"op": "msg", "topic": "in_twist_with_covariance", "type": "TwistWithCovarianceStamped", "msg": {
                "header": {"stamp": T(ns), "frame": "base_link"}, "twist": {"l": nums([speed + rng.gauss(0, 0.05), 0, 0]), "a": nums([0, 0, room.turn * speed / r0 + rng.gauss(0, 0.01)])}, "cov": diag(0.04, 0.04, 0.04, 0.01, 0.01, 0.01)}})
            steps.append({"op": "timer", "t": T(ns)})
        e = run(ekf.node_binary(), {"id": "e", "params": {"predict_frequency": "50.0"}, "start": T(start), "steps": steps}, ctx)
        odom = [o["msg"] for x in e for o in x.get("out", []) if o["topic"] == "ekf_odom"]
        for m in odom[told:]:
            ns = m["header"]["stamp"]["sec"] * 10 ** 9 + m["header"]["stamp"]["nsec"]
            loc.append(odometry(m["header"], m["pose"], m["child"]))
            ev.append({"ev": "Filter", "truth": msg_pose(at(ns)), "msg": {"header": m["header"], "pose": m["pose"]}})
        told = len(odom)
        loc += [cloud_step(t, feats[k][t]) for t in rng.sample(["scan_edge", "scan_surface"], 2)]
        all_ = answers(ctx, files, loc)
        ev.append({"ev": "Ask", "stamp": T(stamps[k]), "from": odom[-1]["pose"] if odom else msg_pose(w0), "truth": msg_pose(at(stamps[k]))})
        for m in all_[len(got):]:
            ev.append({"ev": "Answer", "msg": {"header": m["header"], "pose": m["pose"]}})
            waiting.append({"op": "msg", "topic": "in_pose_with_covariance", "type": "PoseWithCovarianceStamped", "msg": {"header": m["header"], "pose": m["pose"], "cov": m["cov"]}})
        got = all_
    return ev + [{"ev": "Stop"}]


def drive(ctx, rng, sid, n):
    room = Room(rng)
    stamps, poses, s = [], [], 0.0
    lap = 2 * math.pi * room.r
    while s < lap * 1.05:
        poses.append(room.at(s, room.r + rng.uniform(-0.3, 0.3)))
        stamps.append(10 ** 12 + len(stamps) * 100 * MS)
        s += rng.choice([1.3, 1.3, 0.2])
    layout = rng.choice([k for k in KNOWN if all(f[2] == 7 for f in k[0] if f[0] in "xyz")])
    scans = [room.scan(p) for p in poses]
    feats = features(ctx, rng, list(zip(stamps, scans)), layout)
    ev, files = [], {}
    show = set(rng.sample(range(len(poses)), 2))
    for k, (f, p, ns) in enumerate(zip(feats, poses, stamps)):
        ev.append({"ev": "Scan", "stamp": T(ns), "pose": msg_pose(p), "sensor": [nums(x[:3]) for x in scans[k]] if k in show else [],
                   "edge": strip(f["scan_edge"]) if f else [], "surface": strip(f["scan_surface"]) if f else []})
    if None not in feats:
        for name, topic in (("edge", "scan_edge"), ("surface", "scan_surface")):
            f = build_map(ctx, feats, poses, stamps, topic)
            pts = f.get("points", [])
            text = nodes.pcd([p[:3] for p in pts])
            files["maps/%s.pcd" % name] = text
            ev.append({"ev": "Map", "kind": name, "points": pts})
            ev.append({"ev": "Served", "sent": serve(ctx, text)})
        ev += probes(ctx, rng, feats, poses, stamps, files, PROBES)
    ev += closed_loop(ctx, rng, room, files, n, layout)
    return {"id": sid, "params": {"asks": n + PROBES, "probes": PROBES}, "events": ev}


def recorded(ctx, sc):
    with multiprocessing.get_context("fork").Pool(min(core.NCPU, len(sc))) as pool:
        return pool.starmap(drive, [(ctx, random.Random(s["seed"]), s["id"], s["scans"]) for s in sc])


def check(ctx):
    ctx.model(core.tlc_exhaust("DriveMC", workers="8", xmx="6g", cfg_text=cfg("DriveMC", MaxLate=ctx.n(1, 2))), "DriveMC: every drive with the errors the contract allows")
    for b in (extract.node_binary, nodes.mapper_binary, nodes.loader_binary, nodes.loc_binary, ekf.node_binary):
        b()
    sc = [{"id": "drive%d" % i, "seed": ctx.rng.randrange(2 ** 31), "scans": ctx.n(8, 8 if i % 4 else 16)} for i in range(ctx.n(8, 48))]
    ctx.conform("DriveTrace", lambda s: recorded(ctx, s), sc, "drives through simulated rooms")
