"""Checks of the localization, mapping, path, map and converter nodes (L02, M01..M04, C01)."""
import math
from . import core
from .core import num
from .extract import PCL, f32
from . import loc
from .loc import nums, qabout, qmul, qrot, qsome, scene, seen_from, vec, cfg, simulate


def pcd(points, fields="x y z", types="F F F", sizes="4 4 4"):
    """an ASCII point cloud file"""
    n = len(fields.split())
    return ("# .PCD v0.7\nVERSION 0.7\nFIELDS %s\nSIZE %s\nTYPE %s\nCOUNT %s\nWIDTH %d\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA ascii\n" %
            (fields, sizes, types, " ".join(["1"] * n), len(points), len(points))) + "".join(" ".join(p) + "\n" for p in points)


def header(ns, frame="map"):
    return {"stamp": core.T(ns), "frame": frame}


def xyz_msg(topic, points, ns, rng):
    """a cloud of the given points in one of several layouts"""
    kind = rng.choice(["plain", "padded", "extracted", "permuted"])
    fields, step = {"plain": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1]], 12),
                    "padded": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1]], 16),
                    "extracted": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["curvature", 16, 7, 1], ["ring", 20, 4, 1]], 32),
                    "permuted": ([["ring", 0, 4, 1], ["z", 4, 7, 1], ["x", 8, 7, 1], ["y", 12, 7, 1]], 20)}[kind]
    rows = [[{"x": num(p[0]), "y": num(p[1]), "z": num(p[2])}.get(f[0], num(float(rng.randint(0, 60)))) for f in fields] for p in points]
    return {"op": "msg", "topic": topic, "type": "PointCloud2", "msg": {"header": header(ns, rng.choice(["base_link", "lidar", "map"])), "fields": fields, "point_step": step, "points": rows}}


# ------------------------------------------------------------------ L02
def loc_binary():
    app = core.REPO + "/localization/app/localization.cpp"
    return core.build("localization", core.repo_sources("localization/src", "lib/src", "rotationlib/src") + [app, core.VERIF + "/harness/sim_main.cpp"],
                      app=app, link=PCL + ["-lfmt", "-lstdc++fs"])


def prior_step(kind, pose, ns, rng):
    m = {"header": header(ns, "map"), "pose": pose}
    if kind == "odom":
        m["child"] = "base_link"
        return {"op": "msg", "topic": "optimization_start_odom", "type": "Odometry", "msg": m}
    return {"op": "msg", "topic": "optimization_start_pose", "type": "PoseStamped", "msg": m}


def loc_scenario(rng, sid, hist, deep, fine=False):
    e, s = scene(rng, 21)
    steps, content, runs = [], {}, []
    # with a fine unit, the window of a second of the model is out of reach
    base, unit = rng.choice([(10 ** 9 - 3, 1), (2 * 10 ** 9 - 2000, 1000)] if fine else [(10 ** 9, 500 * 10 ** 6), (5 * 10 ** 9, 500 * 10 ** 6), (1600000000 * 10 ** 9, 500 * 10 ** 6)])
    for h in hist:
        ns = base + unit * h["t"]
        if h["k"] in ("pose", "odom"):
            p = {"q": nums(qmul(qabout(vec(rng, 1), rng.uniform(0, 0.06)), (1, 0, 0, 0)) if rng.random() < 0.7 else qsome(rng)), "p": nums(vec(rng, rng.choice([0.1, 0.1, 2.0])))}
            content[h["id"]] = p
            steps.append(prior_step(h["k"], p, ns, rng))
        else:
            size = rng.choice([0, 1, 6, 10]) if h["k"] == "edge" else rng.choice([0, 3, 20, 30])
            src = e if h["k"] == "edge" else s
            pts = seen_from(qabout((0, 0, 1), 0.02), [0.05, -0.03, 0.02], rng.sample(src, min(size, len(src))))
            content[h["id"]] = pts
            steps.append(xyz_msg("scan_edge" if h["k"] == "edge" else "scan_surface", pts, ns, rng))
        for j in h["job"]:
            runs.append({"edge": nums(content[j["edge"]]), "surface": nums(content[j["surface"]]), "prior": content[j["prior"]]})
    return {"id": sid, "params": {}, "files": {"maps/edge.pcd": pcd(nums(e)), "maps/surface.pcd": pcd(nums(s))}, "steps": steps}, \
        {"edge_map": nums(e), "surface_map": nums(s), "runs": runs, "deep": deep, "missing": ""}


def pending(n, k):
    """n edge scans wait, then the surface scan of the k-th arrives and the others follow"""
    h = [{"k": "pose", "t": 3, "id": 1, "job": []}] + [{"k": "edge", "t": i + 1, "id": i + 2, "job": []} for i in range(n)]
    h.append({"k": "surface", "t": k, "id": n + 2, "job": [{"edge": k + 1, "surface": n + 2, "prior": 1}]})
    h.append({"k": "surface", "t": n, "id": n + 3, "job": [{"edge": n + 1, "surface": n + 3, "prior": 1}]})
    return h


def localizer_runs(ctx):
    rng, sc = ctx.rng, []
    for i in range(ctx.n(24, 250)):
        e, s = scene(rng, 21)
        top = i % 4
        scans = []
        for _ in range(3):
            q, t = qabout((0, 0, 1), 0.02), [0.05, -0.03, 0.02]
            scans.append({"edge": nums(seen_from(q, t, rng.sample(e, rng.choice([0, 6, 10])))), "surface": nums(seen_from(q, t, rng.sample(s, rng.choice([0, 20, 30])))),
                          "prior": {"q": nums(qabout(vec(rng, 1), rng.uniform(0, 0.2))), "p": nums(vec(rng, rng.choice([0.1, 0.5])))}})
        sc.append({"id": "localizer%d" % i, "params": {"edge_map": nums(e), "surface_map": nums(s), "max": top, "deep": False}, "kind": "localizer",
                   "run": {"edge_map": nums(e), "surface_map": nums(s), "max": top, "scans": scans}})
    return sc


def check_localizer(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("LocalizerMC", workers="8", cfg_text=cfg("LocalizerMC", MaxOps=ctx.n(5, 6))), "LocalizerMC: every interleaving")
    ctx.model(core.tlc_exhaust("LocalizerMC", workers="8", cfg_text=cfg("LocalizerMC", MaxQueue=2, PriorStamps="{2}", ScanStamps=ctx.n("{1, 2, 3}", "{1, 2, 3, 4}"), MaxOps=ctx.n(6, 7))), "LocalizerMC: short queue")
    sc, extra, ask = [], {}, []
    hists = []
    for n, depth, stamps, priors in ((ctx.n(40, 500), 14, "{1, 2, 3}", "{1, 2, 5}"), (ctx.n(40, 500), 24, "{2, 4, 5, 7}", "{1, 3, 4, 6, 8, 9}"),
                                     (ctx.n(12, 150), 60, "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}", "{1, 7, 13}")):
        hists += simulate(ctx, "LocalizerMC", n, depth + 1, MaxOps=depth, MaxQueue=10, ScanStamps=stamps, PriorStamps=priors, Kinds='{"pose", "odom"}')[:n]
    many = "{%s}" % ", ".join(str(k) for k in range(1, 41))
    hists += simulate(ctx, "LocalizerMC", ctx.n(2, 10), 251, MaxOps=250, MaxQueue=10, ScanStamps=many, PriorStamps=many, Kinds='{"pose", "odom"}')[:ctx.n(2, 10)]
    hists += [pending(n, k) for n, k in ((10, 1), (11, 1), (11, 2), (10, 5), (12, 2), (12, 3), (3, 1))]
    coarse = len(hists)
    hists += simulate(ctx, "LocalizerMC", ctx.n(12, 100), 25, MaxOps=24, MaxQueue=10, ScanStamps="{1, 2, 4, 5, 7}", PriorStamps="{1, 3, 4, 6}", Kinds='{"pose", "odom"}', Horizon=1000000)[:ctx.n(12, 100)]
    for i, h in enumerate(hists):
        s, x = loc_scenario(rng, "run%d" % i, h, i % 4 == 0, i >= coarse)
        sc.append(s)
        extra[s["id"]] = x
        for k, r in enumerate(x["runs"]):
            ask.append(loc.optimizer("%s/%d" % (s["id"], k), problem="loam", edge_map=x["edge_map"], surface_map=x["surface_map"], edge=r["edge"], surface=r["surface"], k=15, pose=r["prior"], max=40))
    for miss in ("edge", "surface", "both"):
        s = {"id": "missing-" + miss, "params": {}, "files": {}, "steps": []}
        for k in ("edge", "surface"):
            if miss not in (k, "both"):
                s["files"]["maps/%s.pcd" % k] = pcd(nums([vec(rng) for _ in range(20)]))
        sc.append(s)
        extra[s["id"]] = {"edge_map": [], "surface_map": [], "runs": [], "deep": False, "missing": miss}
    for t in core.run_harness(loc.binary(), ask, ctx.scratch, 20):
        sid, k = t["id"].rsplit("/", 1)
        ev = t["events"]
        if ev[-1]["ev"] != "Result":
            continue       # no answer: the node has none to compare with either
        extra[sid]["runs"][int(k)].update({"begin": ev[0], "result": ev[-1], "calls": ev[1:-1]})
    for x in extra.values():
        x["runs"] = [r for r in x["runs"] if "result" in r]

    def post(traces):
        for t in traces:
            t["params"] = extra[t["id"]]
        return traces
    ctx.conform("LocalizerTrace", loc_binary(), sc, "localization node runs", post=post)
    ctx.conform("LocalizerTrace", loc.binary(), localizer_runs(ctx), "localizer runs with few iterations")


# ------------------------------------------------------------------ M01, M02
def map_binary():
    return core.build("mapbuilder", core.repo_sources("lib/src") + [core.VERIF + "/harness/map_main.cpp", core.VERIF + "/harness/map_extra.cpp"], link=PCL + ["-lboost_filesystem", "-lfmt", "-lstdc++fs"])


def mapper_binary():
    app = core.REPO + "/mapping/src/mapping.cpp"
    return core.build("mapping", core.repo_sources("mapping/src", "lib/src") + [core.VERIF + "/harness/sim_main.cpp", core.VERIF + "/harness/map_extra.cpp"],
                      app=app, flags=["-DVF_EXTRA"], link=PCL + ["-lboost_filesystem", "-lfmt", "-lstdc++fs"])


UNIT = (1, 0, 0, 0)


def exact_pose(x):
    return {"q": ["1", "0", "0", "0"], "p": [num(v) for v in x]}


def places(rng, n):
    """poses like the model's, seen from a frame of its own"""
    if rng.random() < 0.5:
        o = [float(rng.randint(-20, 20)) for _ in range(3)]
        ax = rng.randrange(3)
        at = lambda d: exact_pose([v + (d if i == ax else 0) for i, v in enumerate(o)])
        turned = lambda a, d=0.25: {"q": nums(qabout((0, 0, 1), 2 * a)), "p": at(d)["p"]}
        return [at(0), at(0.5), at(1), at(1.5), at(2), turned(0.06), turned(0.12), turned(3.0), {"q": nums(qabout((1, 0, 0), 0.12)), "p": nums([v + 0.5 for v in o])}, at(1.0 + 2 ** -20)][:n]
    q, o = qsome(rng), vec(rng, rng.choice([3, 1000]))
    u = qrot(q, [1, 0, 0])
    at = lambda d: {"q": nums(q), "p": nums([a + d * b for a, b in zip(o, u)])}
    turned = lambda a: {"q": nums(qmul(q, qabout(vec(rng, 1), 2 * a))), "p": at(0.25)["p"]}
    return [at(0), at(0.5), at(1.001), at(1.5), at(1.999), turned(0.06), turned(0.12), turned(3.0), turned(0.0999), turned(0.1006)][:n]


def cr_points(rng, n):
    s = rng.choice([1, 20, 100])
    return [[f32(rng.uniform(-s, s)) for _ in range(3)] + [f32(rng.choice([0.0, rng.random(), 100 * rng.random()])), float(rng.choice([0, 1, 63, 255, 256, 65535, rng.randint(0, 127)]))] for _ in range(n)]


def cr_msg(pts, ns, rng):
    fields, step = rng.choice([([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["curvature", 16, 7, 1], ["ring", 20, 4, 1]], 32),
                               ([["ring", 0, 4, 1], ["curvature", 4, 7, 1], ["z", 8, 7, 1], ["y", 12, 7, 1], ["x", 16, 7, 1]], 20)])
    col = {"x": 0, "y": 1, "z": 2, "curvature": 3, "ring": 4}
    return {"header": header(ns, "base_link"), "fields": fields, "point_step": step, "points": [[num(p[col[f[0]]]) for f in fields] for p in pts]}


def builder_step(rng, pts, pose):
    return {"op": "cloud", "msg": cr_msg(pts, rng.randint(0, 10 ** 12), rng), "points": nums(pts), "pose": pose}


def check_map(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("MapperMC", workers="8", cfg_text=cfg("MapperMC", MaxOps=ctx.n(4, 5), Sizes="{0, 1}")), "MapperMC: every sequence of clouds and poses")
    sc = []
    for i, h in enumerate(simulate(ctx, "MapperMC", ctx.n(150, 2000), 14, MaxOps=12, Places="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}", Sizes="{0, 1, 3}")[:ctx.n(400, 4000)]):
        pl = places(rng, 10)
        steps = [builder_step(rng, cr_points(rng, x["size"]), pl[x["place"] - 1]) for x in h]
        if i % 3 == 0:
            steps.insert(rng.randint(0, len(steps)), {"op": "save"})
        steps.append({"op": "save"})
        sc.append({"id": "mc%d" % i, "params": {"old": ""}, "steps": steps})
    for i in range(ctx.n(30, 300)):     # a vehicle driving and turning
        q, p, steps = qsome(rng), vec(rng, 5), []
        for _ in range(rng.randint(3, 25)):
            q = qmul(q, qabout(vec(rng, 1), rng.choice([0.01, 0.05, 0.1, 0.3]) * rng.random()))
            n = math.sqrt(sum(a * a for a in q))
            q = tuple(a / n for a in q)
            p = [a + rng.choice([0.05, 0.2, 0.6]) * rng.gauss(0, 1) for a in p]
            sgn = rng.choice([1, 1, 1, -1])     # the same rotation either way
            steps.append(builder_step(rng, cr_points(rng, rng.choice([0, 1, 2, 5])), {"q": nums([sgn * a for a in q]), "p": nums(p)}))
        sc.append({"id": "drive%d" % i, "params": {"old": ""}, "steps": steps + [{"op": "save"}]})
    for i, (n, m) in enumerate(((150, 2), (12, 400))):      # many clouds, large clouds
        p, steps = vec(rng, 5), []
        for k in range(n):
            p = [a + b for a, b in zip(p, (rng.choice([0.3, 1.2]), rng.gauss(0, 0.2), 0))]
            steps.append(builder_step(rng, cr_points(rng, m), {"q": nums(qabout((0, 0, 1), 0.02 * k)), "p": nums(p)}))
        sc.append({"id": "long%d" % i, "params": {"old": ""}, "steps": steps + [{"op": "save"}]})
    small = []
    for _ in range(ctx.n(300, 4000)):
        a = {"q": nums(qsome(rng)), "p": nums(vec(rng, rng.choice([1, 1000])))}
        m, t = rng.choice([1.0, 0.0, 0.3, 10.0]), rng.choice([0.1, 0.5, 0.9])
        d, u = m * rng.choice([0.0, 0.5, 0.999, 1.001, 3]), vec(rng, 1)
        n = math.sqrt(sum(x * x for x in u))
        half = math.asin(min(1.0, t * rng.choice([0.0, 0.5, 0.999, 1.001, 1.05])))
        qa = [float(x) for x in a["q"]]
        b = {"q": nums([rng.choice([1, -1]) * x for x in qmul(qa, qabout(vec(rng, 1), 2 * half))]), "p": nums([float(x) + d * y / n for x, y in zip(a["p"], u)])}
        small.append({"op": "small", "a": a, "b": b, "metres": num(m), "turn": num(t)})
    for ax in range(3):
        for d in (1.0, -1.0, 0.875, 1.125, 0.0):
            small.append({"op": "small", "a": exact_pose([2, 3, 4]), "b": exact_pose([2 + d * (ax == 0), 3 + d * (ax == 1), 4 + d * (ax == 2)]), "metres": "1", "turn": "0.1"})
    for k in range(16):
        sc.append({"id": "small%d" % k, "params": {"old": ""}, "steps": small[k::16]})
    ctx.conform("MapperTrace", map_binary(), sc, "map builder histories")


def mapper_scenario(rng, sid, h):
    pl = places(rng, 10)
    use = [0, 1, 3, 6, 5, 4]
    old = rng.choice(["", "", "old map"])
    base, unit = rng.choice([(10 ** 9, 10 ** 8), (1600000000 * 10 ** 9, 1), (0, 1), (5 * 10 ** 9 - 2, 1)])
    steps = []
    for x in h:
        ns = base + unit * x["t"]
        if x["k"] == "cloud":
            steps.append({"op": "msg", "topic": "scan_edge", "type": "PointCloud2", "msg": cr_msg(cr_points(rng, x["arg"]), ns, rng)})
        else:
            steps.append({"op": "msg", "topic": "pose", "type": "PoseStamped", "msg": {"header": header(ns), "pose": pl[use[x["arg"] - 1]]}})
    return {"id": sid, "params": {"old": old, "epoch": base // 10 ** 9}, "files": {"maps/edge.pcd": old} if old else {"maps/.keep": ""}, "steps": steps}


def check_mapper(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("MapperNodeMC", workers="8", cfg_text=cfg("MapperNodeMC", MaxOps=ctx.n(4, 5))), "MapperNodeMC: every interleaving")
    ctx.model(core.tlc_exhaust("MapperNodeMC", workers="8", cfg_text=cfg("MapperNodeMC", MaxOps=ctx.n(6, 7), Sizes="{2}", Places="{1}", MaxQueue=2)), "MapperNodeMC: short queue")
    sc, h = [], []
    for n, ops, stamps, places_ in ((ctx.n(60, 800), 8, "{1, 2}", "{1, 2, 3, 4}"), (ctx.n(60, 800), 20, "{1, 2, 3, 4, 5}", "{1, 2, 3, 4}"), (ctx.n(20, 300), 60, "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}", "{1, 2, 3, 4}")):
        h += simulate(ctx, "MapperNodeMC", n, ops + 2, MaxOps=ops, Stamps=stamps, Places=places_, Sizes="{0, 1, 2}", MaxQueue=1000)[:n]
    # messages in order of time, poses late or early by a few, some lost
    for _ in range(ctx.n(40, 500)):
        n = rng.randint(4, 25)
        cl = [(t + rng.uniform(0, 0.5), {"k": "cloud", "t": t, "arg": rng.choice([0, 1, 2, 3])}) for t in range(n) if rng.random() < 0.85]
        po = [(t + rng.choice([0, 0, 1.5, -0.7, 3]) + 0.3, {"k": "pose", "t": t, "arg": rng.choice([1, 2, 3, 4])}) for t in range(n) if rng.random() < 0.85]
        h.append([x for _, x in sorted(cl + po, key=lambda a: a[0])])
    h.append([])
    h.append([{"k": "cloud", "t": 1, "arg": 0}, {"k": "pose", "t": 1, "arg": 1}])
    h.append([{"k": "cloud", "t": t, "arg": 1} for t in range(1000)] + [{"k": "pose", "t": t, "arg": 1 + 2 * (t % 2)} for t in (0, 1, 999)])
    h.append([{"k": "pose", "t": t, "arg": 1} for t in range(1001)] + [{"k": "cloud", "t": t, "arg": 1} for t in (0, 1)])
    for i, x in enumerate(h):
        sc.append(mapper_scenario(rng, "node%d" % i, x))
    ctx.conform("MapperTrace", mapper_binary(), sc, "mapping node runs")


# ------------------------------------------------------------------ M03
def path_binary(kind):
    app = core.REPO + "/path_generator/src/node.cpp" if kind == "cov" else core.VERIF + "/harness/path_pose_main.cpp"
    return core.build("path" + kind, core.repo_sources("lib/src") + [app, core.VERIF + "/harness/sim_main.cpp"], app=app, link=PCL + ["-lfmt", "-lstdc++fs"])


def check_path(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("PathMC", workers="8", cfg_text=cfg("PathMC", MaxOps=ctx.n(6, 7))), "PathMC: every sequence of poses")
    hists = simulate(ctx, "PathMC", ctx.n(60, 600), 32, MaxOps=ctx.n(25, 30), Headers="{1, 2, 3, 4}", Poses="{1, 2, 3}")[:ctx.n(80, 800)]
    hists += [[{"h": 1 + i % 4, "p": 1 + i % 3} for i in range(n)] for n in (0, 1, 2, ctx.n(600, 2500))]
    hists += [[{"h": 1, "p": 1}] * 5]
    for kind in ("cov", "pose"):
        sc = []
        for i, h in enumerate(hists):
            hd = [header(rng.choice([0, 1, 10 ** 9, rng.randint(0, 2 * 10 ** 18)]), rng.choice(["map", "", "odom", "base_link"])) for _ in range(4)]
            ps = [{"q": nums(rng.choice([qsome(rng), (0.0, 0.0, 0.0, 0.0), vec(rng, 3, 4)])), "p": nums(vec(rng, rng.choice([1, 1e6, 1e-9])))} for _ in range(3)]
            steps = []
            for x in h:
                m = {"header": hd[x["h"] - 1], "pose": ps[x["p"] - 1]}
                if kind == "cov":
                    m["cov"] = nums(vec(rng, 1, 36))
                steps.append({"op": "msg", "topic": "pose", "type": "PoseWithCovarianceStamped" if kind == "cov" else "PoseStamped", "msg": m})
            sc.append({"id": "%s%d" % (kind, i), "params": {}, "steps": steps})
        ctx.conform("PathTrace", path_binary(kind), sc, "path generator runs (%s)" % kind)


# ------------------------------------------------------------------ M04
def loader_binary():
    return core.build("loader", core.repo_sources("map_loader/src", "lib/src") + [core.VERIF + "/harness/sim_main.cpp"], flags=["-DVF_COMPONENT"], link=PCL + ["-lboost_filesystem", "-lfmt", "-lstdc++fs"])


def viewer_binary():
    return core.build("viewer", core.repo_sources("map_tf_generator/src", "lib/src") + [core.VERIF + "/harness/sim_main.cpp"], flags=["-DVF_COMPONENT"], link=PCL + ["-lfmt", "-lstdc++fs"])


PACK = {("F", 4): "f", ("F", 8): "d", ("U", 1): "B", ("U", 2): "H", ("U", 4): "I", ("I", 1): "b", ("I", 2): "h", ("I", 4): "i"}


def loader_scenario(rng, i):
    import struct
    names = rng.choice([["x", "y", "z"], ["x", "y", "z", "intensity"], ["x", "y", "z", "curvature", "ring"], ["ring", "z", "y", "x"], ["x", "y", "z", "t", "label"]])
    typ = {"ring": ("U", 2), "t": ("F", 8), "label": ("I", 4)}
    ty = [typ.get(n, ("F", 4)) for n in names]
    n = rng.choice([0, 1, 2, 7, 40, 200]) if i > 1 else 4000
    s = rng.choice([1, 100, 1e5])

    def value(t):
        if t[0] == "F":
            v = rng.choice([rng.uniform(-s, s), rng.uniform(-s, s), 0.0, rng.uniform(-1e-3, 1e-3)])
            return f32(v) if t[1] == 4 else v
        return float(rng.randint(-5 if t[0] == "I" else 0, 255))
    pts = [[value(t) for t in ty] for _ in range(n)]
    if rng.random() < 0.3 and n > 1:
        pts[rng.randrange(n)][names.index("x")] = float("nan")
    if rng.random() < 0.3 and n > 1:
        pts[1] = list(pts[0])
    h = rng.choice([1, 2, 5]) if n % 10 == 0 and n else 1
    head = "# .PCD v0.7 - Point Cloud Data file format\nVERSION 0.7\nFIELDS %s\nSIZE %s\nTYPE %s\nCOUNT %s\nWIDTH %d\nHEIGHT %d\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA %%s\n" % (
        " ".join(names), " ".join(str(t[1]) for t in ty), " ".join(t[0] for t in ty), " ".join("1" for _ in ty), n // h, h, n)
    name = rng.choice(["map.pcd", "dir/some map.pcd", "a.b.pcd"])
    sc = {"id": "load%d" % i, "params": {"pcd_filename": name}, "files": {}, "steps": []}
    if rng.random() < 0.5:
        data = "".join(" ".join(num(v) if t[0] == "F" else "%d" % v for v, t in zip(p, ty)) + "\n" for p in pts)
        sc["files"][name] = head % "ascii" + data
    else:
        b = (head % "binary").encode() + b"".join(struct.pack("<" + "".join(PACK[t] for t in ty), *[v if t[0] == "F" else int(v) for v, t in zip(p, ty)]) for p in pts)
        sc["files"] = {name: ""}
        sc["files_hex"] = {name: b.hex()}
    return sc, {"kind": "loader", "name": name, "names": names, "points": nums(pts), "height": h}


def check_serving(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("MapServingMC", workers="4", cfg_text=cfg("MapServingMC", MaxOps=ctx.n(7, 8))), "MapServingMC: loader, late subscribers and viewer frame")
    sc, par = [], {}
    for i in range(ctx.n(80, 1000)):
        s, p = loader_scenario(rng, i)
        sc.append(s)
        par[s["id"]] = p
    for i, q in enumerate(({}, {"pcd_filename": ""})):
        sc.append({"id": "noname%d" % i, "params": q, "steps": []})
        par["noname%d" % i] = {"kind": "loader", "name": "", "names": [], "points": [], "height": 1}

    def post(traces):
        for t in traces:
            if t["id"] in par:
                t["params"] = par[t["id"]]
        return traces
    ctx.conform("MapServingTrace", loader_binary(), sc, "map files", post=post)
    sc = []
    for i in range(ctx.n(60, 600)):
        p = rng.choice([{}, {"map_frame": "earth"}, {"viewer_frame": "eye"}, {"map_frame": "viewer", "viewer_frame": "map"}])
        steps = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            n = rng.choice([1, 1, 2, 3, 10, 100]) if rng.random() < 0.9 else 1500
            off, s = rng.choice([(0, 1), (1e5, 1), (0, 1e-3), (-3e4, 100), (0, 1e6)]), None
            pts = f32s([[off[0] + rng.uniform(-off[1], off[1]) for _ in range(3)] for _ in range(n)])
            steps.append(xyz_msg(rng.choice(["pointcloud_map", "/pointcloud_map"]), pts, rng.randint(0, 10 ** 12), rng))
            h = rng.choice([k for k in (1, 2, 3, 5) if n % k == 0])
            steps[-1]["msg"].update(height=h, width=n // h)
        par["view%d" % i] = {"kind": "viewer", "map_frame": p.get("map_frame", "map"), "viewer_frame": p.get("viewer_frame", "viewer")}
        sc.append({"id": "view%d" % i, "params": p, "steps": steps})
    ctx.conform("MapServingTrace", viewer_binary(), sc, "viewer frames", post=post)


def f32s(pts):
    return [[f32(v) for v in p] for p in pts]
