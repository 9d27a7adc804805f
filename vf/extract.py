"""Checks of the feature extraction node (F01..F03, F06) and of its building blocks (F04, F05, F07)."""
import json
import math
import struct
from . import core
from .core import num


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def node_binary():
    app = core.REPO + "/extraction/app/feature_extraction.cpp"
    srcs = core.repo_sources("extraction/src", "lib/src") + [app, core.VERIF + "/harness/sim_main.cpp"]
    return core.build("extraction", srcs, app=app, link=PCL + ["-lfmt", "-lstdc++fs"])


PCL = ["-lpcl_common", "-lpcl_io", "-lpcl_filters", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree", "-lboost_system"]

LAYOUTS = {   # fields: name, offset, datatype, count
    "plain": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 16, 7, 1], ["ring", 20, 4, 1]], 32),
    "packed": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 12, 7, 1], ["ring", 16, 4, 1]], 18),
    "extra": ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 16, 7, 1], ["t", 20, 6, 1], ["reflectivity", 24, 4, 1], ["ring", 26, 4, 1], ["noise", 28, 4, 1]], 48),
    "permuted": ([["ring", 0, 4, 1], ["time", 4, 8, 1], ["z", 12, 7, 1], ["intensity", 16, 7, 1], ["y", 20, 7, 1], ["x", 24, 7, 1]], 28),
}


def cloud(points, rng, layout="plain", stamp=(10, 5), order=None, frame="velodyne", height=1):
    """points: [(x, y, ring)]; the z coordinate becomes the 1-based position."""
    pts = list(points)
    if order == "shuffled":
        rng.shuffle(pts)
    elif order == "reversed":
        pts.reverse()
    elif order == "interleaved":
        by = {}
        for p in pts:
            by.setdefault(p[2], []).append(p)
        pts = []
        while by:
            for r in list(by):
                pts.append(by[r].pop(0))
                if not by[r]:
                    del by[r]
    fields, step = LAYOUTS[layout]
    rows = []
    for i, (x, y, r) in enumerate(pts):
        v = {"x": num(f32(x)), "y": num(f32(y)), "z": num(float(i + 1)), "ring": num(float(r)), "intensity": num(float(rng.randint(0, 255)))}
        rows.append([v.get(f[0], num(float(rng.randint(0, 200)))) for f in fields])
    m = {"header": {"stamp": {"sec": stamp[0], "nsec": stamp[1]}, "frame": frame}, "fields": fields, "point_step": step, "points": rows}
    if height > 1 and len(rows) % height == 0:
        m["height"], m["width"] = height, len(rows) // height
    return {"op": "msg", "topic": "points_raw", "type": "PointCloud2", "msg": m}


def params(rng):
    p = {}
    if rng.random() < 0.7:
        p["convolution_padding"] = rng.choice([1, 2, 3, 4, 5, 5, 7])
    if rng.random() < 0.7:
        p["n_blocks"] = rng.choice([1, 2, 3, 4, 6, 6, 9])
    if rng.random() < 0.6:
        p["edge_threshold"] = num(rng.choice([0.01, 0.05, 0.2, 1.0, 5.0, 20.0]))
    if rng.random() < 0.6:
        p["surface_threshold"] = num(rng.choice([1e-4, 0.01, 0.05, 0.5, 3.0]))
    if rng.random() < 0.5:
        p["neighbor_degree_threshold"] = num(rng.choice([0.5, 1.0, 3.0, 8.0]))
    if rng.random() < 0.5:
        p["distance_diff_threshold"] = num(rng.choice([0.05, 0.3, 1.0, 2.5]))
    if rng.random() < 0.5:
        p["parallel_beam_min_range_ratio"] = num(rng.choice([0.005, 0.02, 0.05, 0.3, 1.0]))
    if rng.random() < 0.5:
        p["min_range"] = num(rng.choice([0.05, 0.5, 2.0]))
        p["max_range"] = num(rng.choice([15.0, 30.0, 60.0]))
    return p


def ring_points(rng, segs, p, ring, per_seg=(3, 12)):
    """A ring from a list of segment kinds: ranges over consecutive bearings."""
    thr = math.radians(float(p.get("neighbor_degree_threshold", "2.0")))
    lo, hi = float(p.get("min_range", "0.1")), float(p.get("max_range", "100.0"))
    dd = float(p.get("distance_diff_threshold", "0.3"))
    ratio = float(p.get("parallel_beam_min_range_ratio", "0.02"))
    step = thr * rng.uniform(0.2, 0.9)
    base = rng.uniform(max(lo * 1.5, 2.0), min(hi * 0.7, 12.0))
    out, r = [], base
    total = 0
    noise = rng.choice([1e-4, 1e-3, 5e-3])
    for kind in segs:
        n = rng.randint(*per_seg)
        if kind == "tiny":
            n = rng.randint(1, 2)
        if kind == "jumpout":
            r += dd * rng.uniform(0.7, 3)
        if kind == "jumpin":
            r = max(lo * 1.2 + 0.3, r - dd * rng.uniform(0.7, 3))
        if kind == "gap":
            total += thr * rng.uniform(1.1, 4)
        phi = rng.uniform(-0.9, 0.9)
        for i in range(n):
            a = total
            t = i * step
            v = r
            if kind == "wall":
                v = r * math.cos(phi) / max(0.2, math.cos(phi + t))
            elif kind == "corner":
                v = r / max(0.3, math.cos(abs(i - n / 2) * step + 0.3))
            elif kind == "pole":
                v = r * 0.9 - math.sqrt(max(0.0, 0.04 - (0.4 * (i / max(n - 1, 1) - 0.5)) ** 2))
            elif kind == "spike":
                v = r * (1 + (ratio * rng.uniform(0.5, 4) * rng.choice([-1, 1]) if i == n // 2 else 0))
            elif kind == "far":
                v = hi * rng.choice([1.001, 1.2, 3])
            elif kind == "near":
                v = lo * rng.uniform(0.1, 0.99)
            elif kind == "noise":
                v = r * (1 + rng.gauss(0, ratio))
            elif kind == "ramp":
                v = r + i * dd * 0.4
            out.append((v + rng.gauss(0, noise), a))
            total += step * (1 if kind != "tiny" else rng.uniform(0.1, 1))
        if kind in ("ramp", "wall"):
            r = min(abs(v), hi * 0.8)
    if total > 2 * math.pi * 0.98:     # do not overlap: squeeze
        k = 2 * math.pi * 0.98 / total
        out = [(v, a * k) for v, a in out]
        total *= k
    start = rng.uniform(-math.pi, math.pi) if rng.random() < 0.5 else -math.pi
    return [(v * math.cos(start + a), v * math.sin(start + a), ring) for v, a in out]


def gen_scans(ctx, n, consts, seed):
    t = open(core.TLA + "/ScanGen.cfg").read()
    for k, v in consts.items():
        import re
        t = re.sub(r"\b%s = (\d+|\{[^}]*\})" % k, "%s = %s" % (k, v), t)
    r = core.tlc("ScanGen", cfg_text=t, args=["-simulate", "num=%d" % n, "-depth", "120", "-seed", str(seed), "-deadlock"])
    b = core.parse_prints(r.out, "BEHAVIOUR")
    if len(b) < n // 2:
        raise core.CheckError("ScanGen: %d behaviours\n%s" % (len(b), r.out[-1500:]))
    ctx.model(r, "ScanGen simulation")
    return b


def scan_scenario(rng, sid, b, p):
    steps = []
    for k, s in enumerate(b):
        pts = []
        ids = rng.sample([0, 1, 2, 3, 15, 31, 127, 128, 255, 256, 257, 384, 512, 513, 1024, 65280, 65535], len(s["rings"]))
        for segs, rid in zip(s["rings"], ids):
            pts += ring_points(rng, segs, p, rid)
        steps.append(cloud(pts, rng, {"padded": "packed"}.get(s["layout"], s["layout"]), (100 + k, rng.randint(0, 999999999)), s["order"],
                           height=2 if rng.random() < 0.2 else 1))
    return {"id": sid, "params": p, "steps": steps}


def mc_lines(ctx, n):
    """Lines of the exhaustively checked model, concretised: ranges times a scale, bearings by the gap pattern."""
    rng = ctx.rng
    out = []
    for cfg in ({"N": 6, "Pad": 1, "NB": 1}, {"N": 6, "Pad": 1, "NB": 2}, {"N": 9, "Pad": 2, "NB": 2}, {"N": 14, "Pad": 3, "NB": 2}, {"N": 24, "Pad": 5, "NB": 3}):
        t = open(core.TLA + "/ScanLineMC.cfg").read()
        import re
        for k, v in dict(cfg, Ranges=rng.choice(["{1, 2, 4}", "{2, 3, 4, 8}", "{4, 5, 6}"]), Gen="TRUE").items():
            t = re.sub(r"\b%s = (\d+|\{[^}]*\}|FALSE)" % k, "%s = %s" % (k, v), t)
        t = re.sub(r"INVARIANTS.*", "", t)
        r = core.tlc("ScanLineMC", cfg_text=t, args=["-simulate", "num=%d" % n, "-depth", "40", "-seed", str(ctx.seed), "-deadlock"])
        b = core.parse_prints(r.out, "BEHAVIOUR")
        if len(b) < n // 2:
            raise core.CheckError("ScanLineMC generation\n" + r.out[-1500:])
        out.append((cfg, b))
    return out


def mc_scenarios(ctx, n):
    rng = ctx.rng
    sc = []
    for cfg, lines in mc_lines(ctx, n):
        for k in range(0, len(lines), 8):
            p = {"convolution_padding": cfg["Pad"], "n_blocks": cfg["NB"], "neighbor_degree_threshold": "2.0",
                 "edge_threshold": num(rng.choice([4.0, 1.0, 30.0])), "surface_threshold": num(rng.choice([9.0, 1.0, 0.5, 100.0])), "distance_diff_threshold": num(rng.choice([1.5, 2.5])),
                 "min_range": "1.5", "max_range": num(rng.choice([7.0, 50.0])), "parallel_beam_min_range_ratio": num(rng.choice([0.45, 1.2, 5.0]))}
            pts = []
            for rid, ln in enumerate(lines[k:k + 8]):
                a = rng.uniform(-3.1, 0)
                for i, r in enumerate(ln["rng"]):
                    if i:
                        a += math.radians(rng.uniform(0.4, 1.8) if ln["adj"][i - 1] else rng.uniform(2.2, 5))
                    v = r * (1 + rng.uniform(-1e-3, 1e-3)) if rng.random() < 0.7 else r
                    pts.append((v * math.cos(a), v * math.sin(a), rid))
            sc.append({"id": "mc-%d-%d-%d-%d" % (cfg["N"], cfg["Pad"], cfg["NB"], k), "params": p, "steps": [cloud(pts, rng, order=rng.choice(["sorted", "shuffled"]))]})
    return sc


def special(ctx):
    rng = ctx.rng
    sc = []

    def add(sid, scans, p=None, **kw):
        steps = [s if isinstance(s, dict) else cloud(s, rng, stamp=(7 + i, 13), **kw) for i, s in enumerate(scans)]
        sc.append({"id": sid, "params": p or {}, "steps": steps})

    def arc(n, r=5.0, a0=-1.0, step=0.01, ring=0, jitter=1e-3):
        return [((r + rng.gauss(0, jitter)) * math.cos(a0 + i * step), (r + rng.gauss(0, jitter)) * math.sin(a0 + i * step), ring) for i in range(n)]
    good = arc(40, ring=7)
    add("empty", [[], good, []])
    add("one-point", [[(1.0, 2.0, 3)], good])
    for pad, nb in ((1, 1), (2, 3), (5, 6), (5, 1), (3, 9)):
        p = {"convolution_padding": pad, "n_blocks": nb}
        scan = list(good)
        for k, n in enumerate(sorted({1, pad, pad + 1, pad + 2, 2 * pad, 2 * pad + 1, 2 * pad + 2, 2 * pad + nb - 1, 2 * pad + nb, 2 * pad + nb + 1,
                                      2 * pad + 2 * nb - 1, 2 * pad + 2 * nb, 2 * pad + 2 * nb + 1, 2 * pad + 3 * nb, 60})):
            scan += arc(n, r=4 + k, ring=20 + k)
        add("sizes-%d-%d" % (pad, nb), [scan, good, scan], p, order="shuffled")
    # block boundaries that rounding gets wrong
    for pad, size, nb in ((6, 52, 20), (9, 38, 10), (3, 26, 10), (6, 53, 20), (7, 40, 13), (9, 23, 2), (10, 60, 20)):
        add("blocks-%d-%d-%d" % (pad, size, nb), [arc(size, jitter=0.05)], {"convolution_padding": pad, "n_blocks": nb, "edge_threshold": "0.3", "surface_threshold": "0.1"})
    axes = [(1, 0), (0, 1), (-1, 0), (0, -1), (2, 0), (0, 2), (-2, 0), (0, -2), (3, -0.0), (-3, -0.0), (1, 1), (-1, 1), (-1, -1), (1, -1)]
    add("axes", [[(x, y, 1) for x, y in axes] + [(2.5 * math.cos(a), 2.5 * math.sin(a), 1) for a in [i * 0.3 - 3 for i in range(20)]]], {"convolution_padding": 2, "n_blocks": 2}, order="shuffled")
    many = [(float(1 + i), 0.0, 1) for i in range(25)] + [(2 * math.cos(0.02 * i), 2 * math.sin(0.02 * i), 1) for i in range(-20, 20)]
    add("many-on-x-axis", [many, many], {"convolution_padding": 3, "n_blocks": 3}, order="shuffled")
    add("same-direction", [[(3.0 + 0.01 * i, 4.0 + 0.04 / 3 * i, 1) for i in range(40)] + arc(40, ring=1, a0=0.3)], order="shuffled")
    dirs = [(0.3 + 0.1 * i, 0.1 * (3 + i), 2) for i in range(30)]
    add("collinear-45", [dirs + good], {"convolution_padding": 2, "n_blocks": 3}, order="shuffled")
    add("one-origin", [arc(40) + [(0.0, 0.0, 0)], good], {"convolution_padding": 2}, order="shuffled")
    add("two-origins", [arc(40) + [(0.0, 0.0, 0)] * 2 + good, good], {"convolution_padding": 2}, order="shuffled")
    add("all-origin", [[(0.0, 0.0, 0)] * 30 + good, good])
    add("two-origins-and-axis", [arc(40, a0=-0.2) + [(0.0, 0.0, 0)] * 3 + [(1.0 + i, 0.0, 0) for i in range(3)] + good], {"convolution_padding": 2}, order="shuffled")
    add("duplicates", [arc(30) + arc(30)[:1] * 3 + [(5.0, 0.1, 0)] * 4], {"convolution_padding": 2}, order="shuffled")
    add("exact-range", [[(3.0 * k, 4.0 * k, 1) for k in (1, 2, 3)] + [(4.0 * k, 3.0 * k, 1) for k in (1, 2, 3)] + [(0.0, 5.0 * k, 1) for k in (1, 2, 3)] +
                        [(5.0 * k, 0.0, 1) for k in (1, 2, 3)] + [(-3.0 * k, 4.0 * k, 1) for k in (1, 2, 3)]],
        {"convolution_padding": 1, "n_blocks": 1, "min_range": "5.0", "max_range": "10.0", "neighbor_degree_threshold": "60.0", "edge_threshold": "25.0", "surface_threshold": "25.0", "distance_diff_threshold": "5.0",
         "parallel_beam_min_range_ratio": "0.5"}, order="shuffled")
    # alternating ranges on exact directions: exact ties and exact thresholds
    for k, (e, s, d, r) in enumerate(((4.0, 0.0, 1.0, 0.5), (16.0, 4.0, 2.0, 1.0), (4.0, 4.0, 3.0, 0.25), (1.0, 1.0, 0.5, 5.0))):
        pts = []
        for i in range(60):
            c, sn = ((3, 4) if i % 2 else (4, 3))
            q = (1, 1) if i < 30 else (-1, 1)
            v = rng.choice([1, 1, 1, 2, 3, 4])
            pts.append((q[0] * c * v * 0.2 * 5, q[1] * sn * v * 0.2 * 5, i % 4))
        add("exact-%d" % k, [pts, pts], {"convolution_padding": 1, "n_blocks": 2, "neighbor_degree_threshold": "30.0", "edge_threshold": num(e * 25), "surface_threshold": num(max(s * 25, 7.0)),
                                   "distance_diff_threshold": num(d * 5), "parallel_beam_min_range_ratio": num(r)}, order="shuffled")
    add("huge", [[(x * 1e18, y * 1e18, 0) for x, y, _ in arc(30)] + good], {"max_range": "1e30"}, order="shuffled")
    add("tiny", [[(x * 1e-30, y * 1e-30, 0) for x, y, _ in arc(30)] + good], {"min_range": "1e-300"}, order="shuffled")
    # jumps and features right at the ends of a line and of its blocks
    for pad in (1, 2, 5):
        for pos in list(range(0, pad + 3)):
            n = 2 * pad + 18
            lines = []
            for rid, (at, sgn) in enumerate(((pos, 1), (pos, -1), (n - 1 - pos, 1), (n - 1 - pos, -1))):
                a = [[5.0 + (1.0 if (i > at) == (sgn > 0) else 0.0) + rng.gauss(0, 1e-3), -1 + 0.02 * i] for i in range(n)]
                lines += [(v * math.cos(t), v * math.sin(t), rid) for v, t in a]
            add("end-jump-%d-%d" % (pad, pos), [lines], {"convolution_padding": pad, "n_blocks": 2, "surface_threshold": "1000.0", "edge_threshold": "2000.0"})
            sp = []
            for rid, at in enumerate((pos, n - 1 - pos)):
                sp += [((5.0 + (0.5 if i == at else 0) + rng.gauss(0, 1e-3)) * math.cos(-1 + .02 * i), (5.0 + (0.5 if i == at else 0)) * math.sin(-1 + .02 * i), rid) for i in range(n)]
            add("end-spike-%d-%d" % (pad, pos), [sp], {"convolution_padding": pad, "n_blocks": 2})
    # scans of the size of a real sensor's
    def room(n, ring):
        r, out = 8.0, []
        for i in range(n):
            if rng.random() < 0.02:
                r = rng.uniform(3, 12)
            a = -3.1 + i * 2 * math.pi * 0.99 / n
            v = r * (1 + rng.gauss(0, 2e-3))
            out.append((v * math.cos(a), v * math.sin(a), ring))
        return out
    add("long-ring", [room(1800, 3)], order="shuffled")
    add("long-ring-blocks", [room(1024, 0)], {"n_blocks": 40, "convolution_padding": 2}, order="interleaved")
    add("many-rings", [[q for k in range(128) for q in room(24, k)]], order="interleaved")
    add("ring-bytes", [[q for k in (0, 256, 512, 1, 257, 65280) for q in room(40, k)]] * 2, order="shuffled")
    # a broken ring does not silence the others or the messages
    add("broken-ring", [arc(3, ring=1) + good + arc(60, ring=2), good, arc(9, ring=1), arc(60, ring=3)], order="interleaved")
    return sc


def model_check(ctx):
    t = open(core.TLA + "/ScanLineMC.cfg").read()
    m = core.tlc_exhaust("ScanLineMC", cfg_text=t, workers="8", xmx="6g")
    ctx.model(m, "ScanLineMC N=6 padding 1")
    for cfg in ([("8", "2", "2", "{1, 4}")] if not ctx.thorough else [("8", "2", "2", "{1, 3, 4}"), ("7", "1", "2", "{1, 3, 4}"), ("8", "1", "3", "{2, 5}"), ("7", "1", "1", "{1, 3, 4, 8}")]):
        u = t.replace("N = 6 Pad = 1 NB = 1", "N = %s Pad = %s NB = %s" % cfg[:3]).replace("{1, 3, 4}", cfg[3])
        m = core.tlc_exhaust("ScanLineMC", cfg_text=u, workers="8", xmx="8g", timeout=800)
        ctx.model(m, "ScanLineMC N=%s padding %s blocks %s ranges %s" % cfg)


FOCUS = {
    "F01": {"Kinds": '{"wall", "corner", "pole", "noise", "gap", "arc"}'},
    "F02": {"Kinds": '{"wall", "jumpout", "jumpin", "far", "near", "spike", "gap", "tiny", "arc"}'},
    "F03": {"Kinds": '{"wall", "jumpout", "tiny", "noise"}', "MaxRings": "6", "MaxSegs": "4", "Orders": '{"shuffled", "interleaved", "reversed"}'},
    "F06": {"MaxScans": "4", "MaxSegs": "4"},
}


def node_runs(ctx, n_mc, n_scan, which=None):
    binary = node_binary()
    sc = special(ctx)
    if which:
        sc = [x for x in sc if x["id"].startswith(which)]
    sc += mc_scenarios(ctx, n_mc)
    for i, b in enumerate(gen_scans(ctx, n_scan, FOCUS[ctx.prop], ctx.seed)):
        sc.append(scan_scenario(ctx.rng, "scan%d" % i, b, params(ctx.rng)))
    ctx.conform("ExtractTrace", binary, sc, "feature extraction node runs")


def check(ctx):
    model_check(ctx)
    node_runs(ctx, ctx.n(24, 200), ctx.n(40, 500))
    if ctx.prop in ("F01", "F02", "F03"):
        check_lib(ctx)


# ------------------------------------------------------------------ building blocks
def lib_binary():
    srcs = core.repo_sources("extraction/src", "lib/src") + [core.VERIF + "/harness/ext_main.cpp"]
    return core.build("extlib", srcs, link=PCL + ["-lfmt", "-lstdc++fs"])


SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5, 1e-45, -1e-45, 1e-38, -1e-38, 1e-3, 1e18, -1e18, 3.4e38, -3.4e38, 1.0000001, -0.99999994, 16777215.0, 16777216.0]


def groups(rng, n):
    """connection groups: equal values are connected; groups may repeat a value later on"""
    out, g = [], 0
    while len(out) < n:
        out += [g] * rng.choice([1, 1, 2, 3, 5, n])
        g = rng.choice([g + 1, g + 1, (g + 1) % 2])
    return out[:n]


def direction_points(rng, n):
    """nearly or exactly parallel directions at many ranges, axis points, origins, duplicates"""
    out = []
    base = [(math.cos(a), math.sin(a)) for a in [rng.uniform(-math.pi, math.pi) for _ in range(4)]] + [(1, 0), (-1, 0), (0, 1), (0, -1), (0.6, 0.8), (-3, 4), (1, 1), (-1, -1)]
    for _ in range(n):
        c, s = rng.choice(base)
        k = rng.choice([1.0, 2.0, 3.0, 0.1, 7.3, 1e-3, 1e3, 1e-20, 1e18])
        if rng.random() < 0.3:
            c, s = c + rng.choice([1e-7, -1e-7, 3e-4]), s + rng.choice([1e-7, 0, -3e-4])
        if rng.random() < 0.06:
            c = s = 0.0
        if rng.random() < 0.1 and out:
            out.append(list(rng.choice(out)))
            continue
        out.append([num(f32(c * k)), num(f32(s * k))])
    return out


def lib_order(ctx):
    rng, sc = ctx.rng, []
    grid = [[num(float(x)), num(float(y))] for x in range(-4, 5) for y in range(-4, 5)]
    sc.append({"id": "grid", "steps": [{"op": "less", "pts": grid}]})
    sp = [[num(x), num(y)] for x in SPECIAL for y in SPECIAL]
    for k in range(ctx.n(8, 40)):
        sc.append({"id": "special%d" % k, "steps": [{"op": "less", "pts": rng.sample(sp, 60)}]})
    for k in range(ctx.n(24, 200)):
        sc.append({"id": "dirs%d" % k, "steps": [{"op": "less", "pts": direction_points(rng, 50)}]})
    for k in range(ctx.n(60, 600)):
        n = rng.choice([0, 1, 2, 3, 15, 16, 17, 18, 33, 60, 120, 400]) if k > 2 else 3000
        if k % 3 == 0:
            pts = direction_points(rng, n)
        elif k % 3 == 1:
            pts = [list(rng.choice(sp)) for _ in range(n)]
        else:
            pts = [list(rng.choice(grid)) for _ in range(n)]
        idx = list(range(n))
        rng.shuffle(idx)
        if rng.random() < 0.3:
            idx = idx[:max(0, n // 2)]
        steps = [{"op": "sort", "pts": pts, "idx": idx}]
        ids = rng.choice([[0], [0, 1, 2], [0, 256, 512], [65535, 0, 32768, 255], list(range(40)), [7, 263, 65543 % 65536]])
        rp = [p + [rng.choice(ids)] for p in pts]
        steps.append({"op": "rings", "pts": rp, "min": rng.choice([0, 1, 2, 3, 5, 11, n])})
        names = [rng.sample(["x", "y", "z", "intensity", "ring", "rings", "Ring", "time", ""], rng.randint(0, 6)) for _ in range(2)]
        steps += [{"op": "ring_field", "names": x} for x in names]
        sc.append({"id": "sort%d" % k, "steps": steps})
    return sc


def lib_blocks(ctx):
    rng, sc = ctx.rng, []
    for pad in range(0, ctx.n(8, 13)):
        for n in range(1, ctx.n(17, 33)):
            sc.append({"id": "pad%d-n%d" % (pad, n), "steps": [{"op": "padded", "size": size, "n": n, "padding": pad, "outside": [-1, n, n + 1, -n, 2147483647, -2147483648] if size == 2 * pad + n else []}
                                                             for size in range(0, ctx.n(64, 110))]})
    steps = []
    for _ in range(ctx.n(300, 4000)):
        a = rng.choice([0, 1, 5, -7, 1000, rng.randint(0, 10 ** 6)])
        n = rng.choice([1, 2, 3, 6, 7, 20, 49, 64, 97])
        e = a + rng.choice([0, n - 1, n, n + 1, 2 * n - 1, 3 * n + 1, rng.randint(0, 5000), rng.randint(0, 10 ** 7)])
        steps.append({"op": "blocks", "start": a, "end": e, "n": n, "outside": [-1, n, n + 3]})
    sc += [{"id": "range%d" % k, "steps": steps[k::16]} for k in range(16)]
    return sc


def value_seq(rng, n):
    kind = rng.choice(["int", "int", "noise", "big", "mixed"])
    if kind == "int":
        return [num(float(rng.randint(-3, 3))) for _ in range(n)]
    if kind == "noise":
        return [num(5 + rng.gauss(0, 0.01)) for _ in range(n)]
    if kind == "big":
        return [num(rng.uniform(-1, 1) * 10 ** rng.randint(-9, 9)) for _ in range(n)]
    return [num(rng.choice([0.0, 1.0, 2.5, 80.0, 1e-3])) for _ in range(n)]


def lib_numbers(ctx):
    rng, sc = ctx.rng, []
    for k in range(ctx.n(150, 2000)):
        steps = []
        n = rng.choice([0, 1, 2, 3, 7, 12, 20])
        pts = direction_points(rng, n + 3)
        idx = [rng.randrange(n + 3) for _ in range(n)]
        iv = sorted({(min(a, b), max(a, b)) for a, b in [(rng.randint(0, n), rng.randint(0, n)) for _ in range(6)]} | {(0, n)})
        steps.append({"op": "ranges", "pts": pts, "idx": idx, "intervals": [list(x) for x in iv]})
        thr = rng.choice([0.002, 0.0349, 0.0349, 0.5, 1.5707, 1.5709, 3.0, 1e-5])
        sl = [list(x) for x in iv if x[1] - x[0] >= 2]
        steps.append({"op": "adjacent", "pts": pts, "idx": idx, "thr": num(thr), "slices": sl})
        for _ in range(4):
            a, b = rng.choice(pts), rng.choice(pts)
            steps.append({"op": "angle", "a": a, "b": b})
            c, d, u, v = rng.uniform(-9, 9), rng.uniform(-9, 9), rng.choice([1.0, 3.0, 1e-3, 0.1, 123.456]), rng.choice([1.0, -1.0, 1 / 3.0])
            steps.append({"op": "angle", "a": [num(c), num(d)], "b": [num(c * u * v), num(d * u * v)]})
        w = 2 * rng.randint(0, 5) + 1
        m = rng.choice([0, 1, w - 1, w, w + 1, 2 * w, 40])
        steps.append({"op": "conv", "v": value_seq(rng, m), "w": value_seq(rng, w)})
        p = rng.randint(1, 6)
        m = rng.choice([0, 1, 2 * p, 2 * p + 1, 2 * p + 2, 3 * p + 2, 50])
        steps.append({"op": "curv", "v": value_seq(rng, m), "padding": p})
        steps.append({"op": "weight", "padding": p})
        steps.append({"op": "argsort", "v": value_seq(rng, rng.choice([0, 1, 2, 17, 60]))})
        sc.append({"id": "num%d" % k, "steps": steps})
    return sc


LABELS = ["D", "D", "D", "E", "e", "S", "s", "O", "X", "P"]


def lib_fill(ctx):
    rng, sc = ctx.rng, []
    steps = []
    for n in range(1, 9):
        g = groups(rng, n)
        lab = [rng.choice(LABELS) for _ in range(n)]
        for a in range(-1, n + 1):
            for b in range(0, n + 2):
                steps.append({"op": "fill", "kind": "around", "labels": lab, "groups": g, "a": a, "b": b, "mark": rng.choice("EeSsX")})
                if a < b:
                    steps.append({"op": "fill", "kind": "left", "labels": lab, "groups": g, "a": a, "b": b, "mark": rng.choice("EeSsX")})
                if b <= n and a < b:
                    for bb in {b, n - 1, n}:
                        if a - 1 < bb:
                            steps.append({"op": "fill", "kind": "right", "labels": lab, "groups": g, "a": a - 1, "b": bb, "mark": rng.choice("EeSsX")})
    sc += [{"id": "fill%d" % k, "steps": steps[k::16]} for k in range(16)]
    return sc


def lib_select(ctx):
    rng, sc = ctx.rng, []
    for k in range(ctx.n(100, 2000)):
        steps = []
        for _ in range(8):
            n = rng.choice([2, 3, 4, 5, 6, 8, 11, 20])
            hi = rng.choice([2, 3, 6, 40])
            c = [num(float(rng.randint(0, hi))) if hi < 40 else num(round(rng.expovariate(1), 3)) for _ in range(n)]
            steps.append({"op": "select", "curv": c, "groups": groups(rng, n), "padding": rng.choice([1, 1, 2, 3, 5]),
                          "edge": num(float(rng.choice([0, 1, 2, 5]))), "surface": num(float(rng.choice([0, 1, 2, 0.5])))})
        steps += [{"op": "argsort", "v": value_seq(rng, rng.choice([0, 1, 2, 17, 60]))}]
        sc.append({"id": "select%d" % k, "steps": steps})
    return sc


def lib_unreliable(ctx):
    rng, sc = ctx.rng, []
    dirs = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]
    for k in range(ctx.n(100, 2000)):
        steps = []
        for _ in range(6):
            p = rng.choice([1, 2, 3, 5])
            n = 2 * p + 1 + rng.choice([0, 1, 2, 5, 12])
            g, d = groups(rng, n), rng.randrange(4)
            pts = []
            for i in range(n):
                if i and g[i] != g[i - 1]:
                    d = (d + rng.choice([1, 2, 3])) % 4
                r = rng.choice([1.0, 2.0, 4.0, 5.0, 8.0] if rng.random() < 0.8 else [0.25, 40.0])
                pts.append([num(dirs[d][0] * r), num(dirs[d][1] * r)])
            steps.append({"op": "unreliable", "pts": pts, "labels": [rng.choice(LABELS) for _ in range(n)], "padding": p, "thr": num(0.1),
                          "dist": num(rng.choice([0.5, 1.0, 2.0, 3.0])), "min": num(rng.choice([0.5, 1.0, 2.0])), "max": num(rng.choice([8.0, 5.0, 100.0])),
                          "ratio": num(rng.choice([0.5, 0.25, 1.0, 0.125, 3.0]))})
            steps.append({"op": "colour", "pts": [q + [num(float(rng.randint(-5, 5)))] for q in pts], "labels": steps[-1]["labels"]})
        sc.append({"id": "unreliable%d" % k, "steps": steps})
    return sc


LIB = {"F01": (lib_select, lib_fill, lib_numbers), "F02": (lib_unreliable, lib_fill), "F03": (lib_order,), "F04": (lib_order,), "F05": (lib_blocks,), "F07": (lib_numbers,)}


def check_lib(ctx):
    binary = lib_binary()
    sc = [x for f in LIB[ctx.prop] for x in f(ctx)]
    ctx.conform("ExtractLibTrace", binary, sc, "calls of the building blocks of the extraction package")


FOCUS.update({"F04": {"Kinds": '{"wall", "gap", "arc", "noise"}', "Orders": '{"shuffled", "reversed"}'}, "F05": {"MaxSegs": "4"}, "F07": {"Kinds": '{"wall", "gap", "arc", "tiny"}'}})


def check_order(ctx):
    ctx.model(core.tlc_exhaust("PolarMC", workers="8", xmx="4g", cfg_text=None if not ctx.thorough else open(core.TLA + "/PolarMC.cfg").read().replace("G = 3", "G = 5"), timeout=800),
              "PolarMC: every triple of a grid")
    check_lib(ctx)
    node_runs(ctx, 4, ctx.n(12, 100), ("axes", "many-on", "same-dir", "collinear", "one-origin", "two-origins", "all-origin", "duplicates", "huge", "tiny"))


def check_blocks(ctx):
    t = open(core.TLA + "/BlocksMC.cfg").read()
    if ctx.thorough:
        t = t.replace("60", "150").replace("MaxBlocks = 16", "MaxBlocks = 40")
    ctx.model(core.tlc_exhaust("BlocksMC", workers="4", cfg_text=t), "BlocksMC: every length, padding and number of blocks")
    check_lib(ctx)
    node_runs(ctx, 4, ctx.n(10, 100), ("sizes", "blocks", "empty", "one-point", "broken"))


def check_numbers(ctx):
    ctx.model(core.tlc_exhaust("PolarMC", workers="8", xmx="4g"), "PolarMC")
    check_lib(ctx)
    node_runs(ctx, 8, ctx.n(20, 150), ("same-dir", "collinear", "one-origin", "duplicates", "exact", "huge", "tiny", "end-"))
