"""Checks of the rotation, statistics and conversion functions (R01, R02, R03)."""
import math
from . import core
from .core import num
from .extract import PCL, f32
from .loc import nums, op, pose, qrand, qsome, spread, vec, cfg, errors


def binary():
    return core.build("lib", core.repo_sources("lib/src", "rotationlib/src", "localization/src") + [core.VERIF + "/harness/lib_main.cpp"], link=PCL + ["-lfmt", "-lstdc++fs"])


EXTREME = [0.0, 1.0, -1.0, 0.5, 1e-12, -1e-12, 1e6, -1e6, math.pi, -math.pi, math.pi / 2, 2 * math.pi, 1e-8, 0.1]


def someq(rng):
    return list(qsome(rng)) if rng.random() < 0.6 else [rng.choice(EXTREME[:8]) if rng.random() < 0.5 else rng.uniform(-3, 3) for _ in range(4)]


def somev(rng):
    return [rng.choice(EXTREME) if rng.random() < 0.5 else rng.uniform(-10, 10) for _ in range(3)]


def rotations(ctx):
    rng, steps = ctx.rng, []
    for _ in range(ctx.n(250, 5000)):
        steps += [op("hat", v=nums(somev(rng))), op("left", q=nums(someq(rng))), op("right", q=nums(someq(rng))), op("drpdq", q=nums(someq(rng)), p=nums(somev(rng))),
                  op("wxyz", v=nums(someq(rng)))]
        ang = lambda: rng.choice([rng.uniform(-7, 7), rng.choice([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 1e-9, 3 * math.pi, 100.0])])
        steps.append(op("rpy", v=nums([ang(), ang(), ang()])))
        u = vec(rng, 1)
        n = math.sqrt(sum(x * x for x in u))
        k = rng.choice([0.0, 1e-300, 1e-12, 9e-9, 1.1e-8, 1e-7, 1e-5, 1e-4, 1e-3, 0.1, 1.0, math.pi, 2 * math.pi, 5.0, 100.0, rng.uniform(0, 7)])
        steps.append(op("exp", v=nums([k * x / n for x in u] if rng.random() < 0.8 else rng.choice([[k, 0, 0], [0, -k, 0], [0, 0, k], [0, 0, 0]]))))
    return spread(steps, 40, "rot")


def sequence(rng, n):
    k = rng.choice(["int", "noise", "mixed", "sorted", "reversed", "two", "big"])
    if k == "int":
        return [float(rng.randint(-3, 3)) for _ in range(n)]
    if k == "two":
        return [rng.choice([1.0, 2.0]) for _ in range(n)]
    if k == "big":
        return [rng.uniform(-1, 1) * 10 ** rng.randint(-9, 9) for _ in range(n)]
    v = [rng.gauss(5, 1) for _ in range(n)]
    if k == "mixed":
        v = [x if rng.random() < 0.6 else rng.choice([0.0, -0.0, 1e9, -1e9, 1e-9]) for x in v]
    return sorted(v, reverse=k == "reversed") if k in ("sorted", "reversed") else v


def statistics(ctx):
    import itertools
    rng, steps = ctx.rng, []
    for n in range(0, ctx.n(5, 6)):       # every order of a few values
        for v in itertools.product([0.0, 1.0, 3.0] if n > 3 else [0.0, 1.0, 2.0, 5.0], repeat=n):
            steps += [op("median", v=nums(v)), op("mad", v=nums(v)), op("scale", v=nums(v))]
    for _ in range(ctx.n(400, 6000)):
        v = sequence(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 31, 32, 33, 64, 101]))
        steps += [op("median", v=nums(v)), op("mad", v=nums(v)), op("scale", v=nums(v))]
        k = rng.choice([1.345, 1.0, 0.5, 3.0, rng.uniform(0.1, 5)])
        for e in (rng.uniform(0, 4 * k * k), k * k, k * k * rng.choice([0.999999, 1.000001]), rng.choice([0.0, 1e-9, 1e6, k, 1e-300])):
            steps.append(op("huber", e=num(e), k=num(k)))
            steps.append(op("huber0", e=num(e)))
        steps.append(op("sort3", v=nums(sequence(rng, 3))))
    for n in (255, 256, 257, 600, 1001, 1024):
        v = sequence(rng, n)
        steps += [op("median", v=nums(v)), op("mad", v=nums(v)), op("scale", v=nums(v))]
    for p in itertools.product([0.0, 1.0, 2.0], repeat=3):
        steps.append(op("sort3", v=nums(p)))
    return spread(steps, 40, "stat")


def stamp(rng):
    return {"sec": rng.choice([0, 1, 1234567890, 2147483647, rng.randint(0, 2 * 10 ** 9)]), "nsec": rng.choice([0, 1, 999999999, rng.randint(0, 999999999)])}


NAMES = ["map", "base_link", "", "/map", "lidar_feature_base_link", "a b"]


def conversions(ctx):
    rng, steps = ctx.rng, []
    R = lambda n, s=5.0: vec(rng, s, n)
    for i in range(ctx.n(150, 2500)):
        P = pose(rng)
        steps.append(op("pose", pose=P))
        steps.append(op("pose_msg", msg={"p": nums(R(3)), "q": nums(qsome(rng))}))
        cov = [R(6, 10) for _ in range(6)]
        steps.append(op("stamped", pose=P, stamp=stamp(rng), frame=rng.choice(NAMES), child=rng.choice(NAMES), cov=nums(cov)))
        steps.append(op("twist", l=nums(somev(rng)), a=nums(somev(rng)), stamp=stamp(rng), frame=rng.choice(NAMES)))
        steps.append(op("vector", v=nums(somev(rng)), q=nums(someq(rng))))
        steps.append(op("covariance", a=nums(R(36)), m=nums(cov)))
        steps.append(op("marker", stamp=stamp(rng), frame=rng.choice(NAMES), width=num(f32(rng.choice([0.0, 1.0, rng.random()]))), c=nums([f32(rng.choice([0.0, 1.0, rng.random()])) for _ in range(4)]),
                        lines=nums([[R(3), R(3)] for _ in range(rng.randint(0, 4))])))
        n, c = rng.randint(1, 8), rng.randint(1, 5)
        steps.append(op("rows", m=nums([R(c) for _ in range(n)]), idx=[rng.randrange(n) for _ in range(rng.choice([0, 1, 2, n, 12]))]))
        steps.append(op("stack", v=nums([R(3) for _ in range(rng.randint(0, 6))]), m=nums([[R(3), R(3)] for _ in range(rng.randint(0, 5))]), flat=nums(R(rng.randint(0, 7)))))
        steps.append(op("xform", pose=P, v=nums(R(rng.choice([3, 4, 5, 8])))))
        steps.append(op("isometry", q=nums(qsome(rng)), t=nums(R(3))))
        v = [rng.randint(0, 3) for _ in range(rng.choice([0, 1, 5, 12]))]
        steps.append(op("by_index", v=v, idx=[rng.randrange(len(v) + (rng.random() < 0.1)) for _ in range(rng.randint(0, 6))] if v else [], label=rng.randint(0, 4)))
        v = [rng.randint(0, 99) for _ in range(rng.choice([1, 5, 12]))]
        a = rng.randint(0, len(v))
        b = rng.randint(a, len(v))
        steps.append(op("span", v=v, **{"from": a, "to": b, "at": sorted({-1, 0, b - a - 1, b - a, b - a + 1, rng.randint(-3, 15), 2147483647, -2147483648})}))
        pts = [[f32(x) for x in R(4, 50)] + [float(rng.choice([0, 1, 255, 256, 65535, 77]))] for _ in range(rng.choice([0, 1, 3, 9, 20]))]
        steps.append(op("cloud", pts=nums(pts), pose=P, idx=[rng.randrange(len(pts)) for _ in range(rng.randint(0, 6))] if pts else []))
        steps.append(op("ros_cloud", pts=nums(pts), stamp=stamp(rng), frame=rng.choice(NAMES)))
        leaf = rng.choice([1.0, 0.5, 2.0, 0.25])
        k = rng.choice([1, 5, 30])
        dp = [[f32(leaf * (rng.randint(-4, 3) + rng.uniform(0.02, 0.98))) for _ in range(3)] for _ in range(k)]
        steps.append(op("downsample", pts=nums(dp), leaf=num(leaf)))
        if i % 3 == 0:
            steps.append(op("shuffle", n=rng.choice([0, 1, 2, 5, 40])))
            steps.append(op("sd", v=nums(sequence(rng, rng.choice([2, 3, 10])))))
            steps.append(op("radian", v=num(rng.choice([0.0, 180.0, -90.0, 1e-6, rng.uniform(-720, 720)]))))
            m = [[rng.choice([0.0, 1.0, -5.0, 1e308, float("inf"), float("-inf"), float("nan")] if rng.random() < 0.2 else [1.0, 2.0]) for _ in range(3)] for _ in range(rng.randint(0, 3))]
            steps.append(op("special", m=nums(m)))
    n = 400
    pts = [[f32(x) for x in R(4, 50)] + [float(rng.randint(0, 65535))] for _ in range(n)]
    steps += [op("cloud", pts=nums(pts), pose=pose(rng), idx=[rng.randrange(n) for _ in range(300)]), op("ros_cloud", pts=nums(pts), stamp=stamp(rng), frame="map"),
              op("rows", m=nums([R(3) for _ in range(n)]), idx=[rng.randrange(n) for _ in range(300)]), op("xform", pose=pose(rng), v=nums(R(3))),
              op("stack", v=nums([R(3) for _ in range(200)]), m=nums([[R(3), R(3)] for _ in range(200)]), flat=nums(R(300))),
              op("marker", stamp=stamp(rng), frame="map", width="1", c=nums([1.0] * 4), lines=nums([[R(3), R(3)] for _ in range(300)])),
              op("downsample", pts=nums([[f32(rng.randint(-9, 8) + rng.uniform(0.02, 0.98)) for _ in range(3)] for _ in range(300)]), leaf="1"),
              op("shuffle", n=500), op("sd", v=nums(sequence(rng, 500)))]
    return spread(steps, 60, "conv")


def check_rotations(ctx):
    ctx.model(core.tlc_exhaust("RotationsMC", workers="8", cfg_text=cfg("RotationsMC", Steps=ctx.n(2, 5))), "RotationsMC: the laws over a grid")
    ctx.conform("LibTrace", binary(), rotations(ctx), "rotation primitives")


def check_statistics(ctx):
    ctx.model(core.tlc_exhaust("RobustMC", workers="8", cfg_text=cfg("RobustMC", MaxLen=ctx.n(6, 8))), "RobustMC: every short sequence")
    ctx.conform("LibTrace", binary(), statistics(ctx), "medians, scale and weights")


def check_conversions(ctx):
    ctx.model(core.tlc_exhaust("ConversionsMC", workers="8", cfg_text=cfg("ConversionsMC", MaxIdx=ctx.n(4, 6))), "ConversionsMC: selections and stacks of small matrices")
    ctx.conform("LibTrace", binary(), conversions(ctx), "conversions")
