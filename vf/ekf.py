"""Checks of the pose/twist fusion node (E01..E07) and of the delay filter (K01, K02)."""
import math
from . import core
from .core import T, num

NAN, INF = float("nan"), float("inf")


def node_binary():
    app = core.REPO + "/ekf_localizer/src/ekf_localizer_node.cpp"
    srcs = core.repo_sources("ekf_localizer/src", "kalman_filter/src", "lib/src", "rotationlib/src") + [core.VERIF + "/harness/sim_main.cpp"]
    return core.build("ekf", srcs, app=app, link=["-lstdc++fs"])


def quat(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r / 2), math.sin(r / 2), math.cos(p / 2), math.sin(p / 2), math.cos(y / 2), math.sin(y / 2)
    return [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy]


def cov(rng, idx, lo=1e-3, hi=1.0, corr=True):
    """36 numbers: a positive definite matrix on idx, positive variances elsewhere."""
    c = [0.0] * 36
    for i in range(6):
        c[7 * i] = 10 ** rng.uniform(math.log10(lo), math.log10(hi))
    if corr:
        n = len(idx)
        a = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                c[6 * idx[i] + idx[j]] = (sum(a[i][k] * a[j][k] for k in range(n)) + (0.3 if i == j else 0)) * math.sqrt(hi * lo)
    return c


class World:
    """Concretises a symbolic behaviour: keeps a rough idea of where the vehicle is."""

    def __init__(self, rng, params, start_ns, big=False):
        self.rng, self.p = rng, params
        self.now = start_ns
        self.dt = int(1e9 / float(params.get("predict_frequency", "50.0")))
        self.x = [rng.uniform(-50, 50), rng.uniform(-50, 50), rng.uniform(-3.1, 3.1)]
        self.v, self.w = rng.uniform(-3, 10), rng.uniform(-0.5, 0.5)
        self.steps, self.k = [], 0
        self.frame = params.get("pose_frame_id", "map")
        self.rp = (rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3))
        self.z = rng.uniform(-2, 2)

    def tick(self, cls):
        f = {"nominal": 1.0, "late": self.rng.uniform(1.2, 3.9), "same": 0.0, "gap": self.rng.choice([600.0, 50.0, 8.0, 1.0 / 0.02 * 12]), "half": 0.5, "back": -1.0}[cls]
        step = int(self.dt * f)
        if cls == "gap":
            step = int(self.rng.choice([0.3, 2.0, 9.9, 10.1, 25.0]) * 1e9)
        if cls == "back":
            step = -int(self.rng.choice([0.5, 3, 30]) * self.dt)
        self.now += step
        if cls != "back" and step < 2e9:
            s = step * 1e-9
            self.x[0] += self.v * math.cos(self.x[2]) * s
            self.x[1] += self.v * math.sin(self.x[2]) * s
            self.x[2] = math.remainder(self.x[2] + self.w * s, 2 * math.pi)
        self.steps.append({"op": "timer", "t": T(max(self.now, 0))})

    def stamp(self, cls):
        n = int(self.p.get("extend_state_step", 50))
        d = {"delayed": self.rng.randint(0, max(0, n - 1)) + self.rng.uniform(-0.4, 0.4), "edge": n - 1 + self.rng.choice([0.3, 0.7, -0.3]),
             "stale": n + self.rng.choice([0, 1, 2, 100]) + 0.2, "future": -self.rng.uniform(0.1, 20)}.get(cls, 0.0)
        if cls == "zero":
            return T(0)
        return T(max(0, self.now - int(d * self.dt)))

    def hdr(self, cls, frame):
        return {"stamp": self.stamp(cls), "frame": self.rng.choice(["odom", "", "/" + frame]) if cls == "otherframe" else frame}

    def pose(self, cls):
        r = self.rng
        p = [self.x[0] + r.gauss(0, 0.1), self.x[1] + r.gauss(0, 0.1), self.z + r.gauss(0, 0.2)]
        rpy = [self.rp[0] + r.gauss(0, 0.02), self.rp[1] + r.gauss(0, 0.02), self.x[2] + r.gauss(0, 0.02)]
        c = cov(r, [0, 1, 5])
        if cls == "far":
            p[r.randint(0, 1)] += r.choice([-1, 1]) * 10 ** r.uniform(2, 8)
        if cls == "near_far":
            a = r.uniform(0, 6.28)
            d = 10 ** r.uniform(-1, 1)
            p[0] += d * math.cos(a)
            p[1] += d * math.sin(a)
        if cls == "turn":
            rpy[2] += r.choice([-1, 1]) * r.uniform(0.5, 3.0)
        q = quat(*rpy)
        if cls == "unnormal":
            q = [v * r.choice([0.5, 3.0, -1.0]) for v in q]
        if cls == "nan":
            k = r.choice(["p0", "p1", "p2", "q", "pinf", "all"])
            if k in ("p0", "p1", "p2"):
                p[int(k[1])] = NAN
            elif k == "pinf":
                p[r.randint(0, 2)] = r.choice([INF, -INF])
            elif k == "q":
                q[r.randint(0, 3)] = NAN
            else:
                p, q = [NAN] * 3, [NAN] * 4
        if cls == "huge":
            p[r.randint(0, 2)] = r.choice([1e300, -1e300, 1e308, -1e308])
        if cls == "badcov":
            k = r.choice(["nan", "inf", "one"])
            if k == "nan":
                c = [NAN] * 36
            elif k == "inf":
                c = [INF] * 36
            else:
                c[r.choice([0, 1, 5, 6, 7, 11, 30, 31, 35])] = NAN
        if cls == "auxcov":     # heights and angles weighted oddly, x/y/yaw fine
            for i in (2, 3, 4):
                c[7 * i] = r.choice([0.0, NAN, INF, -1.0, 1e-12, 1e12])
        if cls == "zerocov":
            c = [0.0] * 36
        return self.msg("in_pose_with_covariance", "PoseWithCovarianceStamped",
                        {"header": self.hdr(cls, self.frame), "pose": {"p": [num(v) for v in p], "q": [num(v) for v in q]}, "cov": [num(v) for v in c]})

    def twist(self, cls):
        r = self.rng
        lin, ang = [self.v + r.gauss(0, 0.2), r.gauss(0, 1), r.gauss(0, 1)], [r.gauss(0, 1), r.gauss(0, 1), self.w + r.gauss(0, 0.02)]
        c = cov(r, [0, 5])
        if cls == "far":
            lin[0] += r.choice([-1, 1]) * 10 ** r.uniform(3, 8)
        if cls == "near_far":
            lin[0] += r.gauss(0, 3)
            ang[2] += r.gauss(0, 1)
        if cls == "nan":
            if r.random() < 0.5:
                lin[0] = r.choice([NAN, INF])
            else:
                ang[2] = r.choice([NAN, -INF])
        if cls == "huge":
            lin[0] = r.choice([1e300, -1e308])
        if cls == "badcov":
            if r.random() < 0.3:
                c = [r.choice([NAN, INF])] * 36
            else:
                c[r.choice([0, 5, 30, 35])] = NAN
        if cls == "zerocov":
            c = [0.0] * 36
        return self.msg("in_twist_with_covariance", "TwistWithCovarianceStamped",
                        {"header": self.hdr(cls, "base_link"), "twist": {"l": [num(v) for v in lin], "a": [num(v) for v in ang]}, "cov": [num(v) for v in c]})

    def msg(self, topic, typ, m, **kw):
        d = {"op": "msg", "topic": topic, "type": typ, "msg": m}
        d.update(kw)
        self.steps.append(d)

    def ip(self, cls):
        r = self.rng
        if cls == "jump" or not any(s.get("topic") == "initialpose" for s in self.steps):
            pass
        else:
            self.x = [r.uniform(-50, 50), r.uniform(-50, 50), r.uniform(-3.1, 3.1)]
        tf = {"ok": True, "pose": {"p": ["0", "0", "0"], "q": ["1", "0", "0", "0"]}}
        frame = r.choice([self.frame, "/" + self.frame]) if cls in ("ok", "oddcov") else "odom"
        self.steps.append({"op": "tf_reset"})
        pos, yaw = [self.x[0], self.x[1]], self.x[2]
        if cls in ("planar", "late", "shift"):
            ty = r.uniform(-3.1, 3.1) if cls != "shift" else 0.0
            tp = [r.uniform(-20, 20), r.uniform(-20, 20), r.choice([0.0, r.uniform(-2, 2)])]
            frame = r.choice(["odom", "/odom", "world"])
            tf = {"ok": True, "pose": {"p": [num(v) for v in tp], "q": [num(v) for v in quat(0, 0, ty)]}}
            self.steps.append({"op": "tf", "target": self.frame.lstrip("/"), "source": frame.lstrip("/"), "pose": tf["pose"],
                               "after": r.choice([1, 3, 20, 40]) if cls == "late" else 0})
            dx, dy = self.x[0] - tp[0], self.x[1] - tp[1]
            pos = [math.cos(ty) * dx + math.sin(ty) * dy, -math.sin(ty) * dx + math.cos(ty) * dy]
            yaw = self.x[2] - ty
        if cls == "unknown":
            frame = r.choice(["nowhere", "", "/", "base_link"])
            tf = {"ok": False, "pose": tf["pose"]}
            if frame == self.frame.lstrip("/"):
                frame = "nowhere"
        c = cov(r, [0, 1, 5], 1e-2, 10.0)
        if cls == "oddcov":
            for i in (2, 3, 4):
                c[7 * i] = r.choice([0.0, NAN, INF, -1.0])
        self.msg("initialpose", "PoseWithCovarianceStamped",
                 {"header": {"stamp": T(self.now), "frame": frame}, "pose": {"p": [num(v) for v in pos + [self.z]], "q": [num(v) for v in quat(self.rp[0], self.rp[1], yaw)]},
                  "cov": [num(v) for v in c]}, tf=tf)
        # the node may sleep while it retries; keep our clock ahead of it
        if cls in ("unknown", "late"):
            self.now += int(5.3e9)
        else:
            self.now += int(0.11e9)


def scenario(rng, sid, behaviour, params=None, start=1000 * 10**9, tol="1e-6"):
    w = World(rng, params or {}, start)
    for act, cls in behaviour:
        getattr(w, act)(cls)
    p = dict(params or {})
    p["_tol"] = tol
    return {"id": sid, "params": p, "start": T(start), "steps": w.steps}


def rand_params(rng):
    return {"predict_frequency": rng.choice(["50.0", "20.0", "10.0", "100.0"]), "extend_state_step": rng.choice([1, 2, 3, 4, 5]),
            "pose_smoothing_steps": rng.choice([1, 2, 3, 5]), "twist_smoothing_steps": rng.choice([1, 2, 3]),
            "pose_gate_dist": rng.choice(["10000.0", "3.0", "30.0"]), "twist_gate_dist": rng.choice(["10000.0", "5.0", "30.0"]),
            "proc_stddev_yaw_c": rng.choice(["0.005", "0.05"]), "proc_stddev_yaw_bias_c": rng.choice(["0.001", "0.01"]),
            "proc_stddev_vx_c": rng.choice(["5.0", "1.0"]), "proc_stddev_wz_c": rng.choice(["1.0", "0.3"]),
            "enable_yaw_bias_estimation": rng.choice(["true", "true", "false"]), "pose_frame_id": rng.choice(["map", "map", "world_map"])}


FOCUS = {
    # property: (ip classes, pose classes, twist classes, tick classes)
    "E01": (["ok"], ["near", "delayed", "stale", "far"], ["near", "delayed", "far"], ["nominal", "late", "back"]),
    "E02": (["ok"], ["near", "delayed", "edge", "stale", "future", "nan", "far", "near_far", "badcov", "otherframe", "zero"],
            ["near", "delayed", "edge", "stale", "future", "nan", "near_far", "badcov", "otherframe", "zero"], ["nominal", "late", "same", "half"]),
    "E03": (["ok"], ["near", "turn"], ["near"], ["nominal", "late", "same", "gap", "back", "half"]),
    "E04": (["ok", "unknown"], ["near", "delayed"], ["near"], ["nominal", "late", "back"]),
    "E05": (["ok", "oddcov"], ["near", "nan", "huge", "badcov", "auxcov", "turn", "unnormal", "delayed"], ["near", "nan", "huge", "badcov"], ["nominal", "late", "same"]),
    "E06": (["ok", "oddcov"], ["near", "delayed", "turn", "auxcov", "unnormal", "otherframe"], ["near", "delayed", "otherframe"], ["nominal", "late", "half"]),
    "E07": (["ok", "planar", "shift", "late", "unknown"], ["near", "delayed"], ["near"], ["nominal", "late"]),
}


def gen_cfg(focus, depth):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    ip, po, tw, ti = focus
    return ("SPECIFICATION Spec\nCONSTANTS\n PoseSteps = 3\n TwistSteps = 2\n MaxMsg = 1000\n MaxTick = 1000\n Depth = %d\n Gen = TRUE\n"
            " IpClasses = %s\n PoseClasses = %s\n TwistClasses = %s\n TickClasses = %s\nCHECK_DEADLOCK FALSE\n" % (depth, q(ip), q(po), q(tw), q(ti)))


def behaviours(ctx, focus, num_, depth):
    r = core.tlc("EkfMC", cfg_text=gen_cfg(focus, depth), args=["-simulate", "num=%d" % num_, "-depth", str(depth + 2), "-seed", str(ctx.seed), "-deadlock"], timeout=300)
    out = core.parse_prints(r.out, "BEHAVIOUR")
    if r.code != 0 or len(out) < num_ // 2:
        raise core.CheckError("generator EkfMC: %d\n%s" % (r.code, r.out[-1500:]))
    ctx.model(r, "EkfMC generator (simulation)")
    return out


def model_check(ctx):
    cfg = None
    if ctx.thorough:
        text = open(core.TLA + "/EkfMC.cfg").read().replace("MaxMsg = 4", "MaxMsg = 5").replace("MaxTick = 4", "MaxTick = 4")
        r = core.tlc_exhaust("EkfMC", cfg_text=text, workers="8", xmx="12g", timeout=700)
    else:
        text = open(core.TLA + "/EkfMC.cfg").read().replace("MaxMsg = 4", "MaxMsg = 4").replace("MaxTick = 4", "MaxTick = 3")
        r = core.tlc_exhaust("EkfMC", cfg_text=text, workers="8", xmx="4g", timeout=300)
    ctx.model(r, "EkfMC: all schedules, invariants of queueing, admission, silence")


def special(ctx, prop):
    """Histories with a particular shape that random walks reach rarely."""
    r, out = ctx.rng, []

    def add(name, beh, params=None, **kw):
        out.append(scenario(r, name, beh, params, **kw))
    P = rand_params
    small = lambda **k: dict(P(r), **k)
    # many messages waiting at once
    for i in range(ctx.n(3, 30)):
        a = [("ip", "ok"), ("tick", "nominal")]
        for _ in range(r.randint(3, 6)):
            a += [(r.choice(["pose", "twist"]), "near")] * r.randint(1, 3)
            a += [("tick", "nominal")] * r.randint(1, 2)
        a += [("tick", "nominal")] * 5
        add("burst%d" % i, a, small())
    # a restart with messages still waiting
    for i in range(ctx.n(2, 20)):
        add("restart%d" % i, [("ip", "ok"), ("tick", "nominal"), ("pose", "near"), ("twist", "near"), ("pose", "delayed"), ("tick", "nominal"), ("pose", "near"), ("ip", "ok"),
                              ("tick", "nominal"), ("pose", "near"), ("tick", "nominal"), ("tick", "nominal")], small(pose_smoothing_steps=4, twist_smoothing_steps=3))
    # wall clock times with zero stamps and two ticks at the same instant
    for i in range(ctx.n(2, 10)):
        add("wall%d" % i, [("ip", "ok"), ("tick", "nominal"), ("pose", "zero"), ("tick", "nominal"), ("twist", "zero"), ("tick", "nominal"), ("pose", "near"), ("tick", "same"),
                           ("twist", "delayed"), ("tick", "same"), ("tick", "nominal")], small(), start=1600000000 * 10**9, tol="1e-3")
    # across the +-pi cut
    for i in range(ctx.n(3, 20)):
        s = World(r, small(pose_gate_dist="10000.0"), 1000 * 10**9)
        s.x[2] = r.choice([-1, 1]) * (math.pi - r.uniform(0, 0.05))
        s.w = r.choice([-1, 1]) * r.uniform(0, 0.4)
        s.ip("ok")
        for _ in range(6):
            s.tick("nominal")
            s.x[2] += r.gauss(0, 0.03)
            s.pose("near")
        s.tick("nominal")
        out.append({"id": "cut%d" % i, "params": dict(s.p, _tol="1e-6"), "start": T(1000 * 10**9), "steps": s.steps})
    # measurements that agree with the estimate of their own time and disagree with the present one, and the reverse
    for i in range(ctx.n(6, 60)):
        s = World(r, small(extend_state_step=8, pose_gate_dist="6.0", twist_gate_dist="2.5", proc_stddev_vx_c="100.0", proc_stddev_wz_c="30.0", predict_frequency="50.0",
                           pose_smoothing_steps=r.choice([1, 2]), twist_smoothing_steps=r.choice([1, 2])), 1000 * 10**9)
        s.v, s.w = r.choice([-1, 1]) * r.uniform(0, 3), r.uniform(-0.2, 0.2)
        s.ip("ok")
        past = []

        def go(n):
            for _ in range(n):
                s.tick("nominal")
                past.append((s.now, list(s.x), s.v, s.w))
                s.twist("near")
                if r.random() < 0.6:
                    s.pose("near")
        go(4)
        s.v, s.w = s.v + r.choice([-1, 1]) * r.uniform(6, 9), s.w + r.uniform(-0.5, 0.5)
        go(5)
        for _ in range(3):
            here = (s.now, list(s.x), s.v, s.w)
            s.now, s.x, s.v, s.w = past[-r.choice([2, 4, 6, 6, 7])]
            if r.random() < 0.3:                       # the old stamp with the new value
                s.x, s.v, s.w = list(here[1]), here[2], here[3]
            r.choice([s.twist, s.twist, s.pose])("near")
            s.now, s.x, s.v, s.w = here
            s.tick("nominal")
            past.append((s.now, list(s.x), s.v, s.w))
        out.append({"id": "then%d" % i, "params": dict(s.p, _tol="1e-6"), "start": T(1000 * 10**9), "steps": s.steps})
    # exact repeated stamps with zero variances for the scalar filters; then normal ones
    for i in range(ctx.n(2, 10)):
        add("aux%d" % i, [("ip", "oddcov"), ("tick", "nominal"), ("pose", "auxcov"), ("pose", "auxcov"), ("tick", "nominal"), ("pose", "nan"), ("tick", "nominal"), ("pose", "near"),
                          ("tick", "nominal"), ("pose", "near"), ("tick", "nominal")], small())
    # message before any initial pose
    add("early", [("pose", "near"), ("twist", "near"), ("tick", "nominal"), ("tick", "nominal"), ("ip", "unknown"), ("tick", "nominal"), ("pose", "near"), ("ip", "ok"), ("tick", "nominal"),
                  ("tick", "nominal"), ("pose", "near"), ("tick", "nominal")], small())
    # a refused measurement in the middle of good ones
    for i in range(ctx.n(2, 10)):
        add("refuse%d" % i, [("ip", "ok"), ("tick", "nominal"), ("twist", "near"), ("pose", "near"), ("pose", "badcov"), ("pose", "near"), ("twist", "badcov"), ("twist", "near"), ("tick", "nominal"),
                             ("tick", "nominal"), ("pose", "zerocov"), ("tick", "nominal")], small(pose_smoothing_steps=1 + i % 2))
    # long runs: hundreds of ticks, and scores of messages waiting at once
    for i in range(ctx.n(1, 6)):
        a = [("ip", "ok")]
        for k in range(330):
            a += [("tick", r.choice(["nominal"] * 9 + ["late"]))]
            if k % 3 == 1:
                a += [("pose", r.choice(["near", "near", "delayed"]))]
            if k % 4 == 2:
                a += [("twist", r.choice(["near", "near", "delayed"]))]
            if k == 200:
                a += [("ip", "ok")]
        add("hours%d" % i, a, small(extend_state_step=r.choice([2, 3]), pose_gate_dist="10000.0", twist_gate_dist="10000.0"), tol="1e-4")
        a = [("ip", "ok"), ("tick", "nominal")] + [(k, "near") for k in ("pose", "twist") for _ in range(70)] + [("tick", "nominal")] * 8
        add("flood%d" % i, a, small(pose_smoothing_steps=4, twist_smoothing_steps=3, extend_state_step=12), tol="1e-4")
    # very low frequencies
    add("slow", [("ip", "ok"), ("tick", "nominal"), ("tick", "nominal"), ("twist", "near"), ("tick", "nominal"), ("pose", "delayed"), ("tick", "nominal")], small(predict_frequency="0.5"))
    add("slower", [("ip", "ok"), ("tick", "nominal"), ("twist", "near"), ("tick", "nominal")], small(predict_frequency="0.05"))
    # defaults
    add("defaults", [("ip", "ok"), ("tick", "nominal"), ("pose", "near"), ("twist", "near"), ("tick", "nominal")] + ([("pose", "delayed"), ("tick", "nominal"), ("tick", "nominal")] if ctx.thorough else []), {})
    return out


def check(ctx):
    prop = ctx.prop
    model_check(ctx)
    binary = node_binary()
    sc = special(ctx, prop)
    n = ctx.n(40, 600)
    for i, b in enumerate(behaviours(ctx, FOCUS[prop], n, 24)):
        sc.append(scenario(ctx.rng, "sim%d" % i, b, rand_params(ctx.rng)))
    if prop != "E01":   # everything together as well
        allf = tuple(sorted({c for f in FOCUS.values() for c in f[k]}) for k in range(4))
        for i, b in enumerate(behaviours(ctx, allf, ctx.n(15, 200), 24)):
            sc.append(scenario(ctx.rng, "mix%d" % i, b, rand_params(ctx.rng)))
    ctx.conform("EkfTrace", binary, sc, "EKF node runs")


# ------------------------------------------------------------------ K01, K02: the delay filter itself
def kf_binary():
    return core.build("kf", core.repo_sources("kalman_filter/src", "lib/src") + [core.VERIF + "/harness/kf_main.cpp"], link=["-lstdc++fs"])


def _spd(r, n, lo, hi, rank=None):
    k = rank if rank is not None else n
    s = math.sqrt(10 ** r.uniform(math.log10(lo), math.log10(hi)))
    a = [[r.gauss(0, 1) * s for _ in range(max(k, 1))] for _ in range(n)]
    m = [[sum(a[i][t] * a[j][t] for t in range(k)) for j in range(n)] for i in range(n)]
    if rank is None:
        for i in range(n):
            m[i][i] += 0.1 * s * s
    return m


def _mat(m):
    return [[num(v) for v in row] for row in m]


def kf_scenario(r, sid, behaviour, n, N):
    steps = [{"op": "init", "x": [num(r.gauss(0, 5)) for _ in range(n)], "P": _mat(_spd(r, n, 0.01, 10)), "N": N}]
    for act, k, d in behaviour:
        if act == "predict":
            A = [[(1.0 if i == j else 0.0) + r.gauss(0, 0.4) for j in range(n)] for i in range(n)]
            steps.append({"op": "predict", "xnext": [num(r.gauss(0, 5)) for _ in range(n)], "A": _mat(A),
                          "Q": _mat(_spd(r, n, 0.001, 1, rank=r.choice([0, 1, n])))})
        else:
            m = r.randint(1, n)
            dd = d if act == "update" else d
            if act == "update":
                dd = min(d, N - 1) if r.random() < 0.6 else r.randint(0, N - 1)
            C = [[r.choice([0.0, 1.0, r.gauss(0, 1)]) for _ in range(n)] for _ in range(m)]
            R = _spd(r, m, 0.01, 5)
            if act == "refuse":
                if d >= 3:
                    dd = N + (d - 3)
                else:
                    dd = min(d, N - 1)
                    kind = r.choice(["nan", "zero", "inf"])
                    if kind == "nan":
                        R[r.randint(0, m - 1)][r.randint(0, m - 1)] = NAN
                    elif kind == "inf":
                        R = [[INF] * m for _ in range(m)]
                    else:
                        R = [[0.0] * m for _ in range(m)]
                        C = [[0.0] * n for _ in range(m)]
            steps.append({"op": "update", "y": [num(r.gauss(0, 5)) for _ in range(m)], "C": _mat(C), "R": _mat(R), "d": dd})
    return {"id": sid, "params": {}, "steps": steps}


def overflow(r, sid):
    """a gain that overflows: the variance is too small for its inverse"""
    n = r.randint(1, 3)
    p = num(r.choice([1e-309, 5e-310, 1e-320]))
    P = [[p] * n for _ in range(n)]
    one = [[num(1.0 if j == 0 else 0.0) for j in range(n)]]
    return {"id": sid, "params": {"over": 1}, "steps": [{"op": "init", "x": [num(r.gauss(0, 5)) for _ in range(n)], "P": P, "N": 1},
                                               {"op": "update", "y": [num(r.gauss(0, 5))], "C": one, "R": [["0"]], "d": 0}]}


def plain_scenario(r, sid, acts):
    n, m, k = r.randint(1, 4), r.randint(1, 3), r.randint(1, 2)
    A = lambda: _mat([[(1.0 if i == j else 0.0) + r.gauss(0, 0.3) for j in range(n)] for i in range(n)])
    V = lambda c: [num(r.gauss(0, 3)) for _ in range(c)]
    F = lambda a, b: _mat([[r.gauss(0, 1) for _ in range(b)] for _ in range(a)])
    R = _spd(r, m, 0.01, 5)
    bad = any(a == "refuse" for a in acts) and r.random() < 0.5
    if bad:                                # this filter refuses every measurement
        R[r.randrange(m)][r.randrange(m)] = r.choice([NAN, NAN, INF])
    steps = [{"op": "new", "x": V(n), "A": A(), "B": F(n, k), "C": F(m, n), "Q": _mat(_spd(r, n, 0.001, 1)), "R": _mat(R), "P": _mat(_spd(r, n, 0.01, 10))}]
    for a in acts:
        if a == "own":
            steps.append({"op": "own", "u": V(k)})
        elif a == "given":
            j = r.randint(1, 2)
            steps.append({"op": "given", "u": V(j), "A": A(), "B": F(n, j), "Q": _mat(_spd(r, n, 0.001, 1, rank=r.choice([0, 1, n])))})
        elif a == "init":
            steps.append({"op": "init", "x": V(n), "P": _mat(_spd(r, n, 0.01, 10))})
        elif a == "refuse" and not bad:      # the covariance of the state is unusable until the next start
            steps.append({"op": "init", "x": V(n), "P": [[num(NAN)] * n for _ in range(n)]})
            steps.append({"op": "update", "y": V(m)})
            steps.append({"op": "init", "x": V(n), "P": _mat(_spd(r, n, 0.01, 10))})
        else:
            steps.append({"op": "update", "y": V(m)})
        if r.random() < 0.1:
            steps.append({"op": "copy"})
    return {"id": sid, "params": {}, "steps": steps}


def check_plain(ctx):
    r = ctx.rng
    t = open(core.TLA + "/PlainMC.cfg").read()
    ctx.model(core.tlc_exhaust("PlainMC", cfg_text=t.replace("Depth = 5", "Depth = %d" % ctx.n(5, 7)), workers="8", xmx="6g", timeout=800), "PlainMC: every order of steps, measurements, refusals and restarts")
    g, m = core.tlc_all_behaviours("PlainMC", cfg_text=t.replace("Depth = 5", "Depth = %d" % ctx.n(3, 5)).replace("Gen = FALSE", "Gen = TRUE"))
    ctx.model(m, "PlainMC: all behaviours, replayed")
    sc = [plain_scenario(r, "all%d" % i, [a[0] for a in b]) for i, b in enumerate(g)]
    for i in range(ctx.n(60, 1000)):
        sc.append(plain_scenario(r, "long%d" % i, [r.choice(["own", "given", "update", "update", "update", "refuse", "init"]) for _ in range(r.randint(5, 25))]))
    try:
        b = core.build("kfplain", core.repo_sources("kalman_filter/src", "lib/src") + [core.VERIF + "/harness/kf_plain_main.cpp"], link=["-lstdc++fs"])
    except core.CheckError as e:
        if "undefined reference to `KalmanFilter::~KalmanFilter" not in str(e):
            raise
        ctx.violations.append({"spec": "PlainTrace", "what": "KalmanFilter runs", "scenario": sc[0], "trace": {}, "at_event": 1, "diagnosis": "the filter cannot be created: " + str(e)[:300]})
        return
    ctx.conform("PlainTrace", b, sc, "KalmanFilter runs")


def check_delay(ctx):
    r = ctx.rng
    t = open(core.TLA + "/DelayMC.cfg").read()
    m = core.tlc_exhaust("DelayMC", cfg_text=t.replace("Depth = 4", "Depth = %d" % ctx.n(4, 5)), workers="8", xmx="6g", timeout=800)
    ctx.model(m, "DelayMC: in-time equivalence, symmetry/PSD, refusals, all interleavings")
    sc = []
    g, m = core.tlc_all_behaviours("DelayMC", cfg_text=t.replace("Depth = 4", "Depth = %d" % ctx.n(3, 3)).replace("Gen = FALSE", "Gen = TRUE"))
    ctx.model(m, "DelayMC: all behaviours of depth 3, replayed")
    if not ctx.thorough:
        g = r.sample(g, 700)
    for i, b in enumerate(g):
        sc.append(kf_scenario(r, "all%d" % i, [x for x in b], r.randint(1, 3), 3))
    rr = core.tlc("DelayMC", cfg_text=t.replace("Depth = 4", "Depth = 14").replace("Gen = FALSE", "Gen = TRUE"),
                  args=["-simulate", "num=%d" % ctx.n(60, 800), "-depth", "16", "-seed", str(ctx.seed), "-deadlock"])
    for i, b in enumerate(core.parse_prints(rr.out, "BEHAVIOUR")):
        sc.append(kf_scenario(r, "sim%d" % i, b, r.randint(1, 4), r.choice([1, 2, 3, 5, 6])))
    for i in range(ctx.n(3, 20)):      # long histories, larger states and buffers
        n, N = [(2, 3), (6, 8), (1, 40)][i % 3]
        b = [(r.choice(["predict", "predict", "update", "update", "refuse"]), 0, r.randint(0, 3)) for _ in range([150, 40, 90][i % 3])]
        s = kf_scenario(r, "long%d" % i, b, n, N)
        k = 0
        for st in s["steps"]:          # keep the state within numbers of ordinary size
            if st["op"] == "predict":
                A = [[(0.9 if a == c else 0.0) + r.gauss(0, 0.1 / n) for c in range(n)] for a in range(n)]
                st["A"] = _mat(A)
        sc.append(s)
    for i in range(ctx.n(12, 40)):
        sc.append(overflow(r, "over%d" % i))
    ctx.conform("DelayTrace", kf_binary(), sc, "TimeDelayKalmanFilter runs")
