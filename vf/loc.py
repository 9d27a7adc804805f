"""Checks of the localization package: prior store, registration, local map, nearest neighbours, odometry window."""
import math
import re
from . import core
from .core import num
from .extract import PCL, f32


def binary():
    return core.build("loc", core.repo_sources("localization/src", "lib/src", "rotationlib/src") + [core.VERIF + "/harness/loc_main.cpp"],
                      link=PCL + ["-lfmt", "-lstdc++fs"])


def nums(v):
    return [nums(x) if isinstance(x, (list, tuple)) else num(x) for x in v]


# ------------------------------------------------------------------ small geometry
def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return (aw * bw - ax * bx - ay * by - az * bz, aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw)


def qrot(q, p):
    w = qmul(qmul(q, (0,) + tuple(p)), (q[0], -q[1], -q[2], -q[3]))
    return list(w[1:])


def qabout(axis, angle):
    n = math.sqrt(sum(a * a for a in axis))
    s = math.sin(angle / 2) / n
    return (math.cos(angle / 2), axis[0] * s, axis[1] * s, axis[2] * s)


def qrand(rng):
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 0.1:
            return tuple(x / n for x in q)


def qsome(rng):
    """rotations of every kind, clear of the surfaces where the sign of the quaternion switches"""
    k = rng.random()
    if k < 0.15:
        return (1.0, 0.0, 0.0, 0.0)
    if k < 0.3:
        return qabout((0, 0, 1), rng.uniform(-3.1, 3.1))
    if k < 0.5:      # half turns and more
        return qabout([rng.gauss(0, 1) for _ in range(3)], math.pi * rng.uniform(0.8, 1.0))
    if k < 0.6:
        return qabout(rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)]), rng.choice([math.pi / 2, -math.pi / 2, math.pi * 0.999]))
    return qrand(rng)


def pose(rng, s=5.0):
    return {"q": nums(qsome(rng)), "p": nums([rng.uniform(-s, s) for _ in range(3)])}


def vec(rng, s=5.0, n=3):
    return [rng.uniform(-s, s) for _ in range(n)]


def op(name, **kw):
    kw["op"] = name
    return kw


def spread(steps, n, prefix):
    n = max(1, min(n, len(steps)))
    return [{"id": "%s%d" % (prefix, k), "steps": steps[k::n]} for k in range(n)]


# ------------------------------------------------------------------ L01
def cfg(module, **consts):
    t = open("%s/%s.cfg" % (core.TLA, module)).read()
    for k, v in consts.items():
        t = re.sub(r"\b%s = (\d+|\{[^}]*\}|TRUE|FALSE)" % k, "%s = %s" % (k, v), t)
    return t


def simulate(ctx, module, n, depth, **consts):
    t = re.sub(r"(INVARIANTS|PROPERTIES).*", "", cfg(module, Gen="TRUE", **consts))
    r = core.tlc(module, cfg_text=t, args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(ctx.seed), "-deadlock"])
    b = core.parse_prints(r.out, "BEHAVIOUR")
    if len(b) < n // 2:
        raise core.CheckError("%s generation: %d\n%s" % (module, len(b), r.out[-1500:]))
    ctx.model(r, module + " simulation")
    return b


def check_store(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("PriorStoreMC", workers="8", cfg_text=cfg("PriorStoreMC", MaxOps=ctx.n(6, 7), Stamps=ctx.n("{1, 2, 3, 5}", "{1, 2, 3, 4, 6}"))), "PriorStoreMC: every history")
    sc = []
    for ops, stamps in ((8, "{1, 2, 3, 5}"), (30, "{1, 2, 3, 4, 6, 9, 10}")):
        for i, h in enumerate(simulate(ctx, "PriorStoreMC", ctx.n(120, 3000), ops + 2, MaxOps=ops, Stamps=stamps, Values="{1, 2, 3}")):
            base, unit = rng.choice([(0, 1), (0, 0.1), (1.6e18, 256), (1.6e18, 1e8), (-3, 1)])
            sc.append({"id": "mc%d-%d" % (ops, i), "params": {}, "kind": "store", "run": {"ops": [{"k": o["k"], "t": num(base + unit * o["t"]), "v": o["v"]} for o in h]}})

    def add(sid, ops):
        sc.append({"id": sid, "params": {}, "kind": "store", "run": {"ops": [{"k": {"i": "Insert", "c": "Closest", "r": "Clean"}[o[0]], "t": num(o[1]), "v": o[2] if len(o) > 2 else 0} for o in ops]}})
    add("clean-all", [("i", 5, 1), ("i", 6, 2), ("r", 4), ("c", 5), ("i", 7, 3), ("c", 5), ("r", 7), ("r", 1), ("r", 1), ("i", 1, 9), ("c", 8)])
    add("clean-empty", [("r", 4), ("i", 5, 1), ("c", 5), ("r", 5), ("c", 1)])
    add("tie", [("i", 2, 1), ("i", 4, 2), ("c", 3), ("i", 3, 7), ("c", 3), ("c", 2.5), ("c", 3.5), ("c", 2.4999), ("c", 100), ("c", -100)])
    add("replace", [("i", 2, 1), ("i", 2, 2), ("c", 2), ("c", 3), ("i", 2, 3), ("c", 1)])
    add("zero", [("i", 0, 4), ("c", 0), ("i", -1, 5), ("c", -0.5), ("c", -0.6), ("r", -1), ("c", 3)])
    for i in range(ctx.n(60, 800)):
        ts = [rng.choice([rng.uniform(0, 10), float(rng.randint(0, 6)), 1.6e18 + 256 * rng.randint(0, 10 ** 7)]) for _ in range(rng.randint(1, 12))]
        ops = []
        for _ in range(rng.randint(3, 60)):
            t = rng.choice(ts)
            k = rng.random()
            ops.append(("i", t, rng.randint(0, 99)) if k < 0.5 else ("c", t + rng.choice([0, 0, 0.5, -0.5, 1e9, -256])) if k < 0.85 else ("r", t + rng.choice([0, 0, 0, 1, -1e6])))
        add("random%d" % i, ops)
    for i, n in enumerate((120, 450)):      # a long drive's worth of entries
        base = rng.choice([0, 1.6e18])
        ts = [base + 256 * (j * 390625 + rng.choice([0, 1, -1])) for j in range(n)]
        ops = [("i", t, j % 97) for j, t in enumerate(ts)] + [("c", rng.choice(ts) + rng.choice([0, 256 * 3, 256 * 200000])) for _ in range(60)]
        ops += [("c", ts[0]), ("c", ts[-1]), ("r", ts[n // 2])] + [("c", rng.choice(ts)) for _ in range(20)]
        add("drive%d" % i, ops)
    ctx.conform("PriorStoreTrace", binary(), sc, "histories of the prior store")


# ------------------------------------------------------------------ L03
BASIS = [[1.0 if i == j else 0.0 for j in range(7)] for i in range(7)]


def answer(rng, a, cache):
    """Rows with the error and spread levels of an answer of the model and a step of the wanted kind."""
    if a["kind"] == "empty":
        return {"J": [], "r": []}
    key = (a["e"], a["s"])
    if key not in cache:
        m, d = a["e"] + 1.0, 0.05 * a["s"] + 0.01
        e = [m - d, m - d, m, m, m, m + d, m + d, m + d]
        rng.shuffle(e)
        cache[key] = [[math.sqrt(x) * rng.choice([-1, 1])] for x in e]
    k = {"big": 1.5, "small": 1e4, "none": 1.0}[a["kind"]]
    extra = [rng.uniform(-1, 1) for _ in range(7)]
    rows = [list(b) for b in BASIS] + [extra]
    if a["kind"] == "none":
        c = rng.randrange(7)
        for r in rows:
            r[c] = 0.0
    return {"J": [nums([[k * x for x in r]]) for r in rows], "r": nums(cache[key])}


def optimizer(sid, **run):
    return {"id": sid, "params": {}, "kind": "optimizer", "run": run}


def align_run(rng, sid, start=None, goal=None, n=12, outliers=0, noise=0.0, maximum=20):
    goal = goal or (qsome(rng), vec(rng))
    start = start or (qmul(goal[0], qabout(vec(rng, 1), rng.uniform(0, 0.8))), [g + rng.uniform(-1, 1) for g in goal[1]])
    x = [vec(rng, 4) for _ in range(n)]
    y = [[a + b + rng.gauss(0, noise) for a, b in zip(qrot(goal[0], p), goal[1])] for p in x]
    for i in range(min(outliers, n)):
        y[i] = [v + rng.uniform(-8, 8) for v in y[i]]
    return optimizer(sid, problem="align", x=nums(x), y=nums(y), pose={"q": nums(start[0]), "p": nums(start[1])}, max=maximum)


def switching_runs(rng):
    """poses whose heading crosses the switching surfaces of the quaternion's sign during the run"""
    out = []
    for i, (a, b, axis) in enumerate([(-119.5, -121.5, (0, 0, 1)), (-121.5, -119.0, (0, 0, 1)), (119.5, 122.0, (0, 0, 1)), (-118.0, -125.0, (0, 1, 0)), (-119.0, -121.0, (1, 0, 0)),
                                      (179.0, 182.0, (0, 0, 1)), (-179.0, -183.0, (0, 1, 0)), (-110.0, -135.0, (1, 1, 1)), (-100.0, -130.0, (1, 2, 3))]):
        s, g = qabout(axis, math.radians(a)), qabout(axis, math.radians(b))
        out.append(align_run(rng, "switch%d" % i, (s, [0.1, 0.2, 0.3]), (g, [0.0, 0.25, 0.4]), noise=0.01))
    return out


def scene(rng, n=40):
    """a floor, two walls and poles: maps of edges and surfaces off the origin and matching scans"""
    surf = [[rng.uniform(-3, 3), rng.uniform(-3, 3), -1.5 + rng.gauss(0, 0.01)] for _ in range(n)] + \
           [[4 + rng.gauss(0, 0.01), rng.uniform(-3, 3), rng.uniform(-1, 2)] for _ in range(n)] + \
           [[rng.uniform(-3, 3), -4 + rng.gauss(0, 0.01), rng.uniform(-1, 2)] for _ in range(n)]
    edge = []
    for _ in range(4):
        a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
        edge += [[a + rng.gauss(0, 0.01), b + rng.gauss(0, 0.01), rng.uniform(-1, 2)] for _ in range(n // 3)]
    return [[f32(x) for x in p] for p in edge], [[f32(x) for x in p] for p in surf]


def seen_from(q, t, pts):
    qi = (q[0], -q[1], -q[2], -q[3])
    return [[f32(x) for x in qrot(qi, [a - b for a, b in zip(p, t)])] for p in pts]


def loam_run(rng, sid, maximum=20, k=5):
    e, s = scene(rng)
    goal = (qsome(rng), vec(rng, 1))
    es = seen_from(goal[0], goal[1], rng.sample(e, min(12, len(e))))
    ss = seen_from(goal[0], goal[1], rng.sample(s, 30))
    start = (qmul(goal[0], qabout(vec(rng, 1), rng.uniform(0, 0.05))), [g + rng.uniform(-0.1, 0.1) for g in goal[1]])
    return optimizer(sid, problem="loam", edge_map=nums(e), surface_map=nums(s), edge=nums(es), surface=nums(ss), k=k, pose={"q": nums(start[0]), "p": nums(start[1])}, max=maximum)


def rows(rng, n, k, degenerate=False):
    J = [[vec(rng, 2, 7) for _ in range(k)] for _ in range(n)]
    if degenerate:
        c = rng.randrange(7)
        for m in J:
            for r in m:
                r[c] = 0.0
    return nums(J), nums([vec(rng, 2, k) for _ in range(n)])


def errors(rng, n):
    kind = rng.choice(["u", "same", "zeros", "heavy", "tiny", "big"])
    if kind == "same":
        return [2.5] * n
    if kind == "zeros":
        return [0.0 if rng.random() < 0.7 else rng.random() for _ in range(n)]
    s = {"u": 1, "heavy": 1, "tiny": 1e-12, "big": 1e8}[kind]
    return [s * (rng.random() ** (4 if kind == "heavy" else 1)) * (100 if kind == "heavy" and rng.random() < 0.1 else 1) for _ in range(n)]


def registration_ops(ctx):
    rng, steps = ctx.rng, []
    for i in range(ctx.n(60, 800)):
        n, k = rng.choice([1, 2, 3, 7, 12]), rng.choice([1, 3])
        J, r = rows(rng, n, k, rng.random() < 0.15)
        w = nums([rng.choice([0.0, 1.0, rng.random()]) if rng.random() < 0.2 else rng.uniform(0.1, 1) for _ in range(n)])
        # keep the problem well posed: enough rows for six unknowns
        J2, r2 = rows(rng, 9, k, rng.random() < 0.2)
        w2 = nums([rng.uniform(0.1, 1) for _ in range(9)])
        steps += [op("errors", r=r), op("step", q=nums(qsome(rng)), w=w2, J=J2, r=r2),
                  op("wupdate", M=nums([vec(rng, 1, 6) for _ in range(7)]), w=w2, J=J2, r=r2)]
        steps.append(op("makem", q=nums(qsome(rng))))
        steps.append(op("pose", q=nums(qsome(rng)), t=nums(vec(rng))))
        e = errors(rng, rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 30]))
        steps.append(op("normalize", e=nums(e)))
        steps.append(op("weights", e=nums(errors(rng, rng.choice([1, 4, 9])) + [0.0, 1.345, 1.345 ** 2, 1.81, 1.8090249, 1.8090251, 5.0, 1e6])))
        ang = rng.choice([0.0, 1e-9, 1e-4, 1e-3, 1.9e-3, 2.1e-3, 0.5, 3.1, 6.0])
        u = vec(rng, 1)
        steps.append(op("exp", v=nums([ang * x for x in u])))
        steps.append(op("converged", q=nums(qabout(u, ang)), t=nums([rng.choice([0, 1e-9, 4e-4, 9e-4, 1.1e-3, 0.3]) * x for x in vec(rng, 1)])))
        steps.append(op("converged", q=nums(qmul((-1.0, 0, 0, 0), qabout(u, ang))), t=nums([0.0, rng.choice([0.0, -2e-3, 9.9e-4]), 0.0])))
        d = [rng.choice([0.0, 0.05, 0.09, 0.0999, 0.1001, 0.11, 1.0, 50.0, 1e5]) for _ in range(7)]
        m = rng.choice([7, 7, 6, 3])
        q = [[rng.gauss(0, 1) for _ in range(m)] for _ in range(m)]
        steps.append(op("degenerate", m=nums(conj(q, d[:m]))))
    return spread(steps, 24, "ops")


def conj(q, d):
    """Q diag(d) Q^T with Q from Gram-Schmidt"""
    b = []
    for v in q:
        v = list(v)
        for u in b:
            s = sum(x * y for x, y in zip(u, v))
            v = [x - s * y for x, y in zip(v, u)]
        n = math.sqrt(sum(x * x for x in v))
        b.append([x / n for x in v])
    n = len(d)
    return [[sum(d[k] * b[k][i] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def check_registration(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("RegistrationMC", workers="8", cfg_text=cfg("RegistrationMC", Levels=ctx.n("{0, 1, 2}", "{0, 1, 2, 3}"), MaxIter=ctx.n(4, 5))), "RegistrationMC: every answer sequence")
    sc = []
    b = simulate(ctx, "RegistrationMC", ctx.n(150, 3000), 60, Levels="{0, 1, 2, 3, 4, 5}", MaxIter=8)
    # behaviours that take all their steps are rare among random ones
    for i in range(ctx.n(40, 400)):
        n = rng.randint(1, 20)
        lv = sorted([rng.randint(0, 12) for _ in range(n)], reverse=True)
        h = [{"e": 2 * v + 1, "s": v, "kind": "big"} for v in lv]
        k = rng.random()
        if k < 0.3:
            h[-1]["kind"] = "small"
        elif k < 0.5:
            h.append({"e": h[-1]["e"] - 1, "s": h[-1]["s"] + 1, "kind": "big"})
        elif k < 0.7:
            h.append({"e": h[-1]["e"] + 1, "s": h[-1]["s"], "kind": "big"})
        elif k < 0.9:
            h.append({"e": 0, "s": 0, "kind": "empty"})
        b.append({"max": rng.choice([n, n, n + 1, n + 3]), "hist": h})
    for t in (3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8):     # growth of one, the other or none by very little
        for up in ("e", "s", ""):
            n = rng.randint(1, 4)
            h = [{"e": 2.0 * v + 1, "s": 1.0 * v, "kind": "big"} for v in sorted([rng.randint(1, 8) for _ in range(n)], reverse=True)]
            h.append({"e": h[-1]["e"] + (t if up == "e" else -t), "s": h[-1]["s"] + (t if up == "s" else -t), "kind": "big"})
            h.append({"e": h[-1]["e"] - 0.1, "s": h[-1]["s"] - 0.1, "kind": "small"})
            b.append({"max": n + 5, "hist": h})
    for i, x in enumerate(b):
        cache = {}
        script = [answer(rng, a, cache) for a in x["hist"]] or [answer(rng, {"kind": "empty"}, cache)]
        sc.append(optimizer("mc%d" % i, problem="script", script=script, max=x["max"], pose=pose(rng)))
    for i in range(ctx.n(30, 300)):
        sc.append(align_run(rng, "align%d" % i, n=rng.choice([3, 6, 12, 25]), outliers=rng.choice([0, 0, 1, 4]), noise=rng.choice([0, 0, 1e-3, 0.05]), maximum=rng.choice([0, 1, 2, 3, 20])))
    # long runs, and many rows at once
    for i, n in enumerate((30, 60, 110)):
        h = [{"e": 2 * (n - v) + 1, "s": n - v, "kind": "big"} for v in range(n)]
        script = [answer(rng, a, {}) for a in h]
        sc.append(optimizer("long%d" % i, problem="script", script=script, max=n, pose=pose(rng)))
    for i, n in enumerate((150, 400)):
        sc.append(align_run(rng, "many%d" % i, n=n, outliers=n // 10, noise=0.02, maximum=6))
    sc += switching_runs(rng)
    sc.append(optimizer("align-empty", problem="align", x=[], y=[], pose=pose(rng), max=20))
    sc.append(optimizer("align-one", problem="align", x=nums([vec(rng)]), y=nums([vec(rng)]), pose=pose(rng), max=20))
    sc.append(optimizer("align-line", problem="align", x=nums([[float(i), 0, 0] for i in range(5)]), y=nums([[0, float(i), 0] for i in range(5)]), pose=pose(rng), max=20))
    for i in range(ctx.n(10, 100)):
        sc.append(loam_run(rng, "loam%d" % i, maximum=rng.choice([3, 20, 40])))
    ctx.conform("RegistrationTrace", binary(), sc, "registration runs")
    ctx.conform("LocLibTrace", binary(), registration_ops(ctx), "calls of the parts of registration")


# ------------------------------------------------------------------ L04
def plane_points(rng, n, noise=0.02):
    q = qrand(rng)
    d = rng.uniform(1.0, 6.0)
    return [[a + b for a, b in zip(qrot(q, [d, 0, 0]), qrot(q, [rng.gauss(0, noise), rng.uniform(-2, 2), rng.uniform(-2, 2)]))] for _ in range(n)]


def line_points(rng, n, noise=0.02):
    q, c = qrand(rng), vec(rng, 4)
    return [[a + b for a, b in zip(c, qrot(q, [rng.uniform(-2, 2), rng.gauss(0, noise), rng.gauss(0, noise)]))] for _ in range(n)]


def f32s(pts):
    return [[f32(x) for x in p] for p in pts]


def localmap_ops(ctx):
    rng, sc = ctx.rng, []
    for i in range(ctx.n(60, 700)):
        steps = []
        q, t = qsome(rng), vec(rng, 2)
        P = {"q": nums(q), "p": nums(t)}
        for kind in ("edge", "surface"):
            k = rng.choice([3, 5, 5, 8, 15])
            groups = rng.randint(1, 3)
            m = []
            for _ in range(groups):
                m += (line_points if kind == "edge" else plane_points)(rng, rng.randint(k, 25), rng.choice([0.01, 0.05, 0.2]))
            m = f32s(m)
            near = [[x + rng.gauss(0, 0.3) for x in rng.choice(m)] for _ in range(rng.randint(0, 6))]
            if kind == "surface" and rng.random() < 0.5:    # several points in one cell
                near += [[x + rng.uniform(-0.3, 0.3) for x in p] for p in near]
            steps.append(op(kind, map=nums(m), k=min(k, len(m)), scan=nums(seen_from(q, t, near)), pose=P))
        a, b, c = vec(rng), vec(rng), vec(rng)
        steps += [op("triplet", a=nums(a), b=nums(b), c=nums(c)), op("edge_row", pose=P, a=nums(a), b=nums(b), c=nums(c)),
                  op("surface_row", pose=P, w=nums(vec(rng, 2)), a=nums(a)),
                  op("align", x=nums([vec(rng) for _ in range(4)]), y=nums([vec(rng) for _ in range(4)]), pose=P),
                  op("rows", p=nums([vec(rng) for _ in range(3)]), c=nums([vec(rng) for _ in range(3)]), pose=P),
                  op("meancov", x=nums([vec(rng) for _ in range(rng.choice([1, 2, 3, 9]))])),
                  op("principal", m=nums(conj([vec(rng, 1) for _ in range(3)], sorted([rng.uniform(0, 1), rng.uniform(1.2, 2), rng.choice([2.5, 5.9, 6.1, 10])]))))]
        x = plane_points(rng, rng.choice([3, 4, 8, 20]), rng.choice([0.0, 0.02, 0.15]))
        steps.append(op("plane", x=nums(x)))
        n = rng.choice([1, 2, 3, 6])
        steps.append(op("solve", a=nums([vec(rng, 2, n) for _ in range(n + rng.choice([0, 1, 5]))]), b=[]))
        steps[-1]["b"] = nums(vec(rng, 3, len(steps[-1]["a"])))
        f = [rng.random() < 0.5 for _ in range(rng.choice([0, 1, 5, 20]))]
        steps.append(op("filter", flags=f, v=[rng.randint(0, 9) for _ in f]))
        if i % 3 == 0:
            e, s = scene(rng, 15)
            es = seen_from(q, t, [[v + rng.gauss(0, 0.1) for v in p] for p in rng.sample(e, rng.randint(0, 5))])
            ss = seen_from(q, t, [[v + rng.gauss(0, 0.1) for v in p] for p in rng.sample(s, rng.randint(0, 12))])
            steps.append(op("loam", edge_map=nums(e), surface_map=nums(s), k=5, edge=nums(es), surface=nums(ss), pose=P))
        sc.append({"id": "rows%d" % i, "steps": steps})
    for i in range(ctx.n(2, 10)):       # scans with hundreds of points in as many cells
        q, t = qsome(rng), vec(rng, 2)
        P = {"q": nums(q), "p": nums(t)}
        steps = []
        for kind in ("edge", "surface"):
            m = []
            for _ in range(12):
                c = vec(rng, 12)
                m += [[a + b for a, b in zip(c, p)] for p in (line_points if kind == "edge" else plane_points)(rng, 30, 0.02)]
            m = f32s(m)
            near = [[x + rng.gauss(0, 0.1) for x in rng.choice(m)] for _ in range(rng.choice([150, 280]))]
            steps.append(op(kind, map=nums(m), k=5, scan=nums(seen_from(q, t, near)), pose=P))
        steps.append(op("meancov", x=nums([vec(rng) for _ in range(400)])))
        a = [vec(rng, 2, 6) for _ in range(300)]
        steps.append(op("solve", a=nums(a), b=nums(vec(rng, 3, 300))))
        f = [rng.random() < 0.5 for _ in range(1000)]
        steps.append(op("filter", flags=f, v=[rng.randint(0, 9) for _ in f]))
        steps.append(op("align", x=nums([vec(rng) for _ in range(200)]), y=nums([vec(rng) for _ in range(200)]), pose=P))
        steps.append(op("rows", p=nums([vec(rng) for _ in range(200)]), c=nums([vec(rng) for _ in range(200)]), pose=P))
        sc.append({"id": "many%d" % i, "steps": steps})
    return sc


def check_localmap(ctx):
    ctx.model(core.tlc_exhaust("LocalMapMC", workers="8", xmx="4g", cfg_text=cfg("LocalMapMC").replace("One", ctx.n("One", "All"))), "LocalMapMC: derivatives against differences of the residuals over a grid")
    ctx.conform("LocLibTrace", binary(), localmap_ops(ctx), "residuals and derivatives")


# ------------------------------------------------------------------ L05
def knn_ops(ctx):
    rng, sc = ctx.rng, []
    for i in range(ctx.n(120, 1500)):
        n = rng.choice([1, 2, 3, 5, 10, 11, 12, 20, 21, 50, 120])
        kind = rng.choice(["uniform", "grid", "line", "same", "clusters", "offset"])
        if kind == "uniform":
            m = [vec(rng) for _ in range(n)]
        elif kind == "grid":
            m = [[float(rng.randint(-2, 2)) for _ in range(3)] for _ in range(n)]
        elif kind == "line":
            m = [[float(j), 0.0, 0.0] for j in range(n)]
        elif kind == "same":
            m = [[1.0, 2.0, 3.0]] * n
        elif kind == "clusters":
            c = [vec(rng, 50) for _ in range(3)]
            m = [[x + rng.gauss(0, 0.1) for x in rng.choice(c)] for _ in range(n)]
        else:
            m = [[1000 + x for x in vec(rng, 1)] for _ in range(n)]
        m = f32s(m)
        qs = []
        for _ in range(8):
            p = rng.choice([vec(rng, 6), rng.choice(m), [x + 0.5 for x in rng.choice(m)], vec(rng, 1e4), [x + rng.gauss(0, 0.01) for x in rng.choice(m)], [float(rng.randint(-3, 3)) for _ in range(3)]])
            qs.append({"p": nums(p), "k": rng.choice([1, 1, 2, 5, 15, n])})
        for q in qs:
            q["k"] = min(q["k"], n)
        steps = [op("knn", map=nums(m), leaf=rng.choice([1, 2, 3, 10, 20]), queries=qs), op("knn_cloud", map=nums(m), queries=qs),
                 op("tomatrix", pts=nums([vec(rng, 5, 4) for _ in range(rng.choice([0, 1, 7]))]))]
        sc.append({"id": "knn%d" % i, "steps": steps})
    for i, (n, spread_) in enumerate([(300, 20), (1100, 60), (2100, 60)]):
        m = f32s([vec(rng, spread_) for _ in range(n)])
        qs = [{"p": nums(p), "k": k} for p in ([x + rng.gauss(0, 0.5) for x in rng.choice(m)], rng.choice(m), vec(rng, 3 * spread_)) for k in (1, 5, 15, 70)]
        sc.append({"id": "big%d" % i, "steps": [op("knn", map=nums(m), leaf=10, queries=qs), op("knn", map=nums(m), leaf=1, queries=qs[::3]), op("knn_cloud", map=nums(m), queries=qs[:6]),
                                                op("tomatrix", pts=nums([vec(rng, 5, 4) for _ in range(n)]))]})
    return sc


def check_knn(ctx):
    ctx.model(core.tlc_exhaust("NearestMC", workers="8", xmx="4g", cfg_text=cfg("NearestMC", MaxLeaf=ctx.n(2, 3), MaxPoints=ctx.n(4, 5))), "NearestMC: split-tree search against the definition for every small map and query")
    ctx.conform("LocLibTrace", binary(), knn_ops(ctx), "nearest-neighbour queries")


# ------------------------------------------------------------------ L06
def check_odometry(ctx):
    rng = ctx.rng
    ctx.model(core.tlc_exhaust("OdomMC", workers="8", cfg_text=cfg("OdomMC", MaxScans=ctx.n(4, 5), MaxWindow=ctx.n(3, 5))), "OdomMC: every sequence of scans and answers")
    sc = []
    b = simulate(ctx, "OdomMC", ctx.n(100, 1500), 14, MaxScans=10, MaxWindow=5)
    for i, x in enumerate(b):
        places = [{"q": nums((1.0, 0, 0, 0)), "p": nums([0, 0, 0])}, pose(rng), pose(rng)]
        scans = []
        for a, n in zip(x["poses"], x["sizes"]):
            if len(scans) == 0 and n == 0:
                n = 1 if rng.random() < 0.5 else 0
            scans.append({"points": nums(f32s([vec(rng) for _ in range(n)])), "answer": places[a]})
        sc.append({"id": "odo%d" % i, "params": {"window": x["window"]}, "kind": "odometry", "run": {"window": x["window"], "scans": scans}})
        w = [{"points": s["points"], "pose": pose(rng)} for s in scans]
        sc.append({"id": "win%d" % i, "params": {"window": x["window"]}, "kind": "window", "run": {"scans": w, "sizes": sorted(rng.sample(range(1, 14), 4))}})
    # long histories: windows that fill, slide for long and hold many scans
    for i, (n, window, most) in enumerate([(70, 20, 3), (130, 100, 2), (60, 1, 5), (90, 5, 8), (12, 3, 150), (300, 64, 1)][: ctx.n(6, 6)]):
        scans = [{"points": nums(f32s([vec(rng, 30) for _ in range(rng.randint(1, most))])), "answer": pose(rng)} for _ in range(n)]
        sc.append({"id": "long-odo%d" % i, "params": {"window": window}, "kind": "odometry", "run": {"window": window, "scans": scans}})
        w = [{"points": s["points"], "pose": s["answer"]} for s in scans]
        sc.append({"id": "long-win%d" % i, "params": {"window": window}, "kind": "window", "run": {"scans": w, "sizes": sorted({1, window, n - 1, n, n + 7})}})
    ctx.conform("OdomTrace", binary(), sc, "odometry and window histories")
