"""The point type converter (C01)."""
import json
import math
import os
from . import core
from .core import num
from .extract import f32
from .loc import cfg, simulate

SIZE = [0, 1, 1, 2, 2, 4, 4, 4, 8]
RANGE = [None, (-128, 127), (0, 255), (-32768, 32767), (0, 65535), (-2 ** 31, 2 ** 31 - 1), (0, 2 ** 32 - 1)]
CARRIED = ("x", "y", "z", "intensity", "ring")


def value(rng, name, t):
    if t >= 7:
        k = rng.random()
        v = (0.0 if k < 0.12 else -0.0 if k < 0.14 else rng.uniform(-1e-5, 1e-5) if k < 0.2 else rng.uniform(-200, 200) if k < 0.9
             else rng.choice([1e30, -1e30, 1e-42, 5e-324 if t == 8 else 1e-45, 3e38, math.inf, -math.inf, math.nan, 1 / 3]))
        v = f32(v) if t == 7 else v
        return num(v)
    lo, hi = RANGE[t]
    if name == "ring":
        lo, hi = 0, min(hi, 65535)
    return "%d" % rng.choice([0, hi, lo, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, min(100, hi))])


def complete(rng, layout, extra):
    """the five carried fields are always there; a ring is a whole number"""
    names = [f["name"] for f in layout]
    out, at, shift = [], 0, 0
    todo = [n for n in CARRIED if n not in names]
    rng.shuffle(todo)
    for f in layout:
        t = f["datatype"]
        if f["name"] == "ring" and t > 6:
            t = rng.randint(1, 6)
        off = f["offset"] + shift
        shift += SIZE[t] - SIZE[f["datatype"]]
        out.append([f["name"], off, t, 1])
        at = off + SIZE[t]
    for n in todo:
        t = rng.randint(1, 6) if n == "ring" else rng.choice([7, 7, 7, 8, rng.randint(1, 8)])
        at += rng.choice([0, 0, 1, 3, 4])
        out.append([n, at, t, 1])
        at += SIZE[t]
    step = at + extra
    for k, f in enumerate(out):        # an array field: its further elements are padding
        if f[0] not in CARRIED:
            room = (out[k + 1][1] if k + 1 < len(out) else step) - f[1]
            f[3] = rng.randint(1, room // SIZE[f[2]])
    return out, step


def make(rng, fields, step, zeros, n):
    names = [f[0] for f in fields]
    pts = [[value(rng, f[0], f[2]) for f in fields] for _ in range(n)]
    for i, z in enumerate(zeros):
        for c in "xyz":
            if z:
                k = names.index(c)
                pts[i][k] = rng.choice(["0", "-0.0"]) if fields[k][2] >= 7 else "0"
    for i in range(1, n):              # repeated returns, next to each other and far apart
        if rng.random() < 0.1:
            pts[i] = list(pts[rng.choice([i - 1, rng.randrange(i)])])
    order = list(range(len(fields)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    h = {"sec": rng.choice([0, 1, 2 ** 31 - 1, rng.randint(0, 2 * 10 ** 9)]), "nsec": rng.randint(0, 999999999), "frame": rng.choice(["base_link", "", "velodyne", "a/b"])}
    height = rng.choice([k for k in (1, 2, 3) if n % k == 0]) if n else 1
    return {"fields": [fields[k] for k in order], "step": step, "big": rng.random() < 0.4, "points": [[p[k] for k in order] for p in pts],
            "header": h, "height": height, "noise": rng.randrange(2 ** 31), "times": 2 if rng.random() < 0.1 else 1}


KNOWN = [   # layouts of real drivers: fields and point step
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 16, 7, 1], ["ring", 20, 4, 1]], 32),
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 12, 7, 1], ["ring", 16, 4, 1], ["time", 18, 7, 1]], 22),
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 16, 7, 1], ["t", 20, 6, 1], ["reflectivity", 24, 4, 1], ["ring", 26, 2, 1], ["ambient", 28, 4, 1], ["range", 32, 6, 1]], 48),
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["intensity", 12, 2, 1], ["return_type", 13, 2, 1], ["ring", 14, 4, 1], ["azimuth", 16, 7, 1], ["distance", 20, 7, 1], ["time_stamp", 24, 8, 1]], 32),
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["padding", 12, 7, 1], ["intensity", 16, 7, 1], ["ring", 20, 4, 1]], 32),
    ([["intensity", 0, 7, 1], ["x", 4, 7, 1], ["y", 8, 7, 1], ["z", 12, 7, 1], ["ring", 16, 4, 1]], 18),
    ([["ring", 0, 4, 1], ["z", 2, 8, 1], ["y", 10, 8, 1], ["x", 18, 8, 1], ["intensity", 26, 8, 1]], 34),
    ([["x", 0, 7, 1], ["y", 4, 7, 1], ["z", 8, 7, 1], ["rgb", 12, 7, 1], ["ring", 16, 4, 1], ["intensity", 18, 7, 1]], 22),
    ([["x", 0, 3, 1], ["y", 2, 3, 1], ["z", 4, 3, 1], ["intensity", 6, 1, 1], ["ring", 7, 2, 1]], 8),
]


def check(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("ConverterMC", workers="8", cfg_text=cfg("ConverterMC", **({} if ctx.thorough else {"Gaps": "{0, 2}"}))), "ConverterMC: every layout of three fields, read cell by cell")
    lays = simulate(ctx, "ConverterMC", ctx.n(300, 4000), 12, Names='{"x", "y", "z", "intensity", "ring", "t", "padding", "xx"}', Types="{1, 2, 3, 4, 5, 6, 7, 8}",
                    Gaps="{0, 1, 2, 3, 7}", MaxFields=8)[:ctx.n(400, 5000)]
    clouds = []
    for b in lays:
        last = b["fields"][-1]
        fields, step = complete(rng, b["fields"], b["step"] - last["offset"] - SIZE[last["datatype"]])
        clouds.append(make(rng, fields, step, b["zero"], b["n"] + rng.choice([0, 0, 1, 3, 20])))
    for fields, step in KNOWN:
        for n in (0, 1, 2, 7, ctx.n(400, 3000)):
            clouds.append(make(rng, fields, step, [n == 1] + [rng.random() < 0.3 for _ in range(n - 1)] if n else [], n))
        clouds.append(make(rng, fields, step, [True] * 5, 5))
    for fields, step in KNOWN[:2]:       # a real sensor's scan
        clouds.append(make(rng, fields, step, [rng.random() < 0.2 for _ in range(5000)], 5000))
    rng.shuffle(clouds)
    sc, at = [{"id": "main", "main": True}, {"id": "idle", "clouds": []}], 0
    while at < len(clouds):
        k = rng.choice([1, 2, 5, 8])
        sc.append({"id": "c%d" % at, "clouds": clouds[at:at + k]})
        at += k
    ctx.conform("ConverterTrace", core.VERIF + "/harness/conv_main.py", sc, "converter runs", env={"VF_REPO": core.REPO})
