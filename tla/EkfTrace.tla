------------------------------- MODULE EkfTrace --------------------------------
(* EkfLocalizer with real arithmetic, judging recorded runs of the node.         *)
EXTENDS DelayFilter, TLC, FiniteSets, TraceFile
VARIABLES sc, l, st

Par(p, k, dflt) == IF k \in DOMAIN p THEN p[k] ELSE dflt
NStates(p) == Par(p, "extend_state_step", 50)
Tol(p) == Par(p, "_tol", "1e-6")
MapFrame(p) == Par(p, "pose_frame_id", "map")

Wrap(a) == FAtan2(FSin(a), FCos(a))
Cov(c, i, j) == c[6 * i + j + 1]
(* yaw, roll, pitch of a quaternion <<w, x, y, z>> (not necessarily normalised)  *)
YawOf(q) == FAtan2(FMul(2, FAdd(FMul(q[2], q[3]), FMul(q[1], q[4]))),
                   FSub(FAdd(FSq(q[1]), FSq(q[2])), FAdd(FSq(q[3]), FSq(q[4]))))
RollOf(q) == FAtan2(FMul(2, FAdd(FMul(q[1], q[2]), FMul(q[3], q[4]))),
                    FSub(FAdd(FSq(q[1]), FSq(q[4])), FAdd(FSq(q[2]), FSq(q[3]))))
PitchOf(q) == FAsin(FDiv(FMul(2, FSub(FMul(q[1], q[3]), FMul(q[4], q[2]))),
                         FSum(<<FSq(q[1]), FSq(q[2]), FSq(q[3]), FSq(q[4])>>)))
QMul(a, b) ==
  <<FSub(FMul(a[1], b[1]), FSum(<<FMul(a[2], b[2]), FMul(a[3], b[3]), FMul(a[4], b[4])>>)),
    FSum(<<FMul(a[1], b[2]), FMul(a[2], b[1]), FMul(a[3], b[4]), FNeg(FMul(a[4], b[3]))>>),
    FSum(<<FMul(a[1], b[3]), FMul(a[3], b[1]), FMul(a[4], b[2]), FNeg(FMul(a[2], b[4]))>>),
    FSum(<<FMul(a[1], b[4]), FMul(a[4], b[1]), FMul(a[2], b[3]), FNeg(FMul(a[3], b[2]))>>)>>
Half(a) == FDiv(a, 2)
QuatOfRPY(r, p, y) ==
  QMul(QMul(<<FCos(Half(y)), "0.0", "0.0", FSin(Half(y))>>, <<FCos(Half(p)), "0.0", FSin(Half(p)), "0.0">>),
       <<FCos(Half(r)), FSin(Half(r)), "0.0", "0.0">>)
SameRotation(a, b, tol) ==      \* unit quaternions up to sign
  LET dot == FSum(<<FMul(a[1], b[1]), FMul(a[2], b[2]), FMul(a[3], b[3]), FMul(a[4], b[4])>>)
      nn == FSum(<<FSq(a[1]), FSq(a[2]), FSq(a[3]), FSq(a[4])>>)
      s == IF FLt(dot, 0) THEN FNeg("1.0") ELSE "1.0"
  IN FClose(nn, 1, 0, "1e-9") /\ VClose(a, [i \in 1..4 |-> FMul(s, b[i])], 0, tol)

-------------------------------------------------------------------------------
NumLife(p, kind) == IF kind = "pose" THEN Par(p, "pose_smoothing_steps", 5) ELSE Par(p, "twist_smoothing_steps", 2)

(* step length: nominal period first; afterwards the elapsed time, at most 10 s   *)
NumDtSet(p, last, now) ==
  IF last = <<>> THEN {FDiv(1, FMax(Par(p, "predict_frequency", "50.0"), "0.1"))}
  ELSE LET d == FSecs(now.sec, now.nsec, last[1].sec, last[1].nsec) IN
       IF FLt(d, 0) THEN {} ELSE {FMin(d, 10)}

NumFInit(p, m, tf) ==
  LET yaw == YawOf(tf.pose.q)
      a == m.pose.p
      pos == <<FAdd(FSub(FMul(FCos(yaw), a[1]), FMul(FSin(yaw), a[2])), tf.pose.p[1]),
               FAdd(FAdd(FMul(FSin(yaw), a[1]), FMul(FCos(yaw), a[2])), tf.pose.p[2])>>
      x0 == <<pos[1], pos[2], FAdd(YawOf(m.pose.q), yaw), "0.0", "0.0", "0.0">>
  IN FilterInit(x0, MDiag(<<Cov(m.cov, 0, 0), Cov(m.cov, 1, 1), Cov(m.cov, 5, 5), "0.0001", "0.01", "0.01">>), NStates(p))

(* unicycle with heading bias; x = <<x, y, heading, bias, speed, turn rate>>       *)
Motion(x, dt) ==
  LET h == FAdd(x[3], x[4]) IN
  <<FAdd(x[1], FMul(FMul(x[5], FCos(h)), dt)), FAdd(x[2], FMul(FMul(x[5], FSin(h)), dt)),
    Wrap(FAdd(x[3], FMul(x[6], dt))), x[4], x[5], x[6]>>
Jacobian(x, dt) ==
  LET h == FAdd(x[3], x[4])
      dx == FNeg(FMul(FMul(x[5], FSin(h)), dt))
      dy == FMul(FMul(x[5], FCos(h)), dt)
      o == "0.0" i == "1.0"
  IN <<<<i, o, dx, dx, FMul(FCos(h), dt), o>>, <<o, i, dy, dy, FMul(FSin(h), dt), o>>,
       <<o, o, i, o, o, FOf(dt)>>, <<o, o, o, i, o, o>>, <<o, o, o, o, i, o>>, <<o, o, o, o, o, i>>>>
Noise(p, dt) ==
  LET v(k, d) == FMul(FSq(Par(p, k, d)), FSq(dt)) IN
  MDiag(<<"0.0", "0.0", v("proc_stddev_yaw_c", "0.005"),
          IF Par(p, "enable_yaw_bias_estimation", "true") = "true" THEN v("proc_stddev_yaw_bias_c", "0.001") ELSE "0.0",
          v("proc_stddev_vx_c", "5.0"), v("proc_stddev_wz_c", "1.0")>>)
NumFPredict(p, f, dt) ==
  FilterPredict(f, Motion(Latest(f), dt), Jacobian(Latest(f), dt), Noise(p, dt))

o == "0.0"
i1 == "1.0"
CPose == <<<<i1, o, o, o, o, o>>, <<o, i1, o, o, o, o>>, <<o, o, i1, o, o, o>>>>
CTwist == <<<<o, o, o, o, i1, o>>, <<o, o, o, o, o, i1>>>>
Values(kind, m) ==
  IF kind = "pose" THEN <<FOf(m.pose.p[1]), FOf(m.pose.p[2]), YawOf(m.pose.q)>>
  ELSE <<FOf(m.twist.l[1]), FOf(m.twist.a[3])>>
RCov(p, kind, m) ==
  LET ix == IF kind = "pose" THEN <<0, 1, 5>> ELSE <<0, 5>> IN
  [a \in 1..Len(ix) |-> [b \in 1..Len(ix) |-> FMul(Cov(m.cov, ix[a], ix[b]), NumLife(p, kind))]]
CMat(kind) == IF kind = "pose" THEN CPose ELSE CTwist
Innov(f, kind, m, d) ==
  LET v == Innovation(f, Values(kind, m), CMat(kind), d) IN
  IF kind = "pose" THEN <<v[1], v[2], Wrap(v[3])>> ELSE v
Observed(f, kind) ==       \* covariance of the observed part of the newest state
  IF kind = "pose" THEN MBlock(f.P, 0, 0, 3, 3) ELSE MBlock(f.P, 4, 4, 2, 2)

(* delay in ticks, rounded; both neighbours when the quotient sits on a half       *)
DelaySet(p, now, stamp, dt) ==
  LET delay == FMax(FSecs(now.sec, now.nsec, stamp.sec, stamp.nsec), 0) IN
  IF FEq(delay, 0) THEN {0}
  ELSE IF FEq(dt, 0) THEN {NStates(p)}
  ELSE LET q == FDiv(delay, dt) IN
       IF FGt(q, 1000000) THEN {1000000}
       ELSE LET slack == FMax("1e-5", FMul(q, Tol(p)))
            IN {FRound(FSub(q, slack)), FRound(FAdd(q, slack))}
Gate(p, kind) == IF kind = "pose" THEN Par(p, "pose_gate_dist", "10000.0") ELSE Par(p, "twist_gate_dist", "10000.0")
GateSet(p, f, kind, m, d) ==
  LET v == Innov(f, kind, m, d)
      C == Observed(f, kind)
      d2 == MMul(<<v>>, MMul(MInv(C), MCol(v)))[1][1]
      g2 == FSq(Gate(p, kind))
      eig == MEig(C)[1]
  IN IF FLt(eig[1], FMul("1e-9", FAbs(eig[Len(eig)]))) THEN {TRUE, FALSE}
     ELSE {~FIsNaN(d2) /\ FLe(d2, g2)} \cup
          (IF FClose(d2, g2, FMax("1e-5", FMul(100, Tol(p))), "1e-9") THEN {TRUE, FALSE} ELSE {})
NumAdmit(p, f, kind, m, now, dt) ==
  UNION {
    IF d >= NStates(p) \/ ~MFinite(<<Values(kind, m)>>) \/ ~MFinite(RCov(p, kind, m))
    THEN {[ok |-> FALSE, d |-> d]}
    ELSE {[ok |-> g /\ GainOk(f, CMat(kind), RCov(p, kind, m), d), d |-> d] : g \in GateSet(p, f, kind, m, d)}
    : d \in DelaySet(p, now, m.header.stamp, dt)}
NumFFuse(p, f, kind, m, d) == FilterUpdateBy(f, Innov(f, kind, m, d), CMat(kind), RCov(p, kind, m), d)

(* scalar Kalman filters for height, roll, pitch; observations that are not numbers, *)
(* or would leave the filter without a number, are ignored                          *)
Scalar(s, c, obs, var, stamp) ==
  LET sd == FSqrt(var)
      r == IF ~s.init THEN [init |-> TRUE, x |-> FOf(obs), v |-> FOf(var), t |-> stamp]
           ELSE LET dt == FSecs(stamp.sec, stamp.nsec, s.t.sec, s.t.nsec)
                    pv == FAdd(s.v, FSq(FMul(c, dt)))
                    k == FDiv(pv, FAdd(pv, var))
                IN [init |-> TRUE, x |-> FAdd(s.x, FMul(k, FSub(obs, s.x))), v |-> FMul(FSub(1, k), pv), t |-> stamp]
  IN IF FIsFinite(obs) /\ FIsFinite(sd) /\ FIsFinite(r.x) /\ FIsFinite(r.v) THEN r ELSE s
S0 == [init |-> FALSE, x |-> "0.0", v |-> "1e18", t |-> "none"]
NumAuxInit == [z |-> S0, roll |-> S0, pitch |-> S0]
NumAuxUpdate(p, aux, m) ==
  [z |-> Scalar(aux.z, "1.0", m.pose.p[3], Cov(m.cov, 2, 2), m.header.stamp),
   roll |-> Scalar(aux.roll, "0.1", RollOf(m.pose.q), Cov(m.cov, 3, 3), m.header.stamp),
   pitch |-> Scalar(aux.pitch, "0.1", PitchOf(m.pose.q), Cov(m.cov, 4, 4), m.header.stamp)]

E == INSTANCE EkfLocalizer WITH Life <- NumLife, DtSet <- NumDtSet, FInit <- NumFInit, FPredict <- NumFPredict,
       Admit <- NumAdmit, FFuse <- NumFFuse, AuxInit <- NumAuxInit, AuxUpdate <- NumAuxUpdate

-------------------------------------------------------------------------------
(* what a tick's report looks like on the outside                                  *)
PoseCov(P) == [k \in 1..36 |-> LET a == (k - 1) \div 6  b == (k - 1) % 6
                                   s(c) == CASE c = 0 -> 1 [] c = 1 -> 2 [] c = 5 -> 3 [] OTHER -> 0
                               IN IF s(a) = 0 \/ s(b) = 0 THEN "0.0" ELSE P[s(a)][s(b)]]
TwistCov(P) == [k \in 1..36 |-> LET a == (k - 1) \div 6  b == (k - 1) % 6
                                    s(c) == CASE c = 0 -> 5 [] c = 5 -> 6 [] OTHER -> 0
                                IN IF s(a) = 0 \/ s(b) = 0 THEN "0.0" ELSE P[s(a)][s(b)]]
PoseOk(p, r, pose) ==
  LET x == Latest(r.f) IN
  /\ VClose(pose.p, <<x[1], x[2], r.aux.z.x>>, Tol(p), Tol(p))
  /\ SameRotation(pose.q, QuatOfRPY(r.aux.roll.x, r.aux.pitch.x, FAdd(x[3], x[4])), Tol(p))
OdomOk(p, r, o1) ==
  LET x == Latest(r.f)  P == LatestP(r.f)  m == o1.msg IN
  /\ o1.topic = "ekf_odom" /\ o1.type = "Odometry"
  /\ m.header.stamp = r.now /\ m.header.frame = MapFrame(p) /\ m.child = "base_link"
  /\ PoseOk(p, r, m.pose)
  /\ VClose(m.pcov, PoseCov(P), Tol(p), Tol(p))
  /\ VClose(m.tcov, TwistCov(P), Tol(p), Tol(p))
  /\ VClose(m.twist.l, <<x[5], o, o>>, Tol(p), Tol(p)) /\ VClose(m.twist.a, <<o, o, x[6]>>, Tol(p), Tol(p))
TfOk(p, r, t) ==
  /\ t.topic = "tf" /\ t.type = "Transform"
  /\ t.msg.header.stamp = r.now /\ t.msg.header.frame = MapFrame(p) /\ t.msg.child = "base_link"
  /\ PoseOk(p, r, t.msg.pose)
OutOk(p, out, seen) ==
  IF out = <<>> THEN seen = <<>>
  ELSE /\ Len(seen) = 2
       /\ \/ OdomOk(p, out[1], seen[1]) /\ TfOk(p, out[1], seen[2])
          \/ OdomOk(p, out[1], seen[2]) /\ TfOk(p, out[1], seen[1])

StepOf(p, s, e) ==
  IF e.ev = "Timer" THEN E!Tick(p, s, e.now)
  ELSE IF e.step.topic = "initialpose" THEN E!InitialPose(p, s, e.step.msg, e.step.tf)
  ELSE IF e.step.topic = "in_pose_with_covariance" THEN E!Pose(p, s, e.step.msg)
  ELSE E!Twist(p, s, e.step.msg)

Topics == {"initialpose", "in_pose_with_covariance", "in_twist_with_covariance"}
StartOk(p, e) ==
  /\ e.out = <<>> /\ e.ok
  /\ {e.subs[k] : k \in 1..Len(e.subs)} = Topics /\ Len(e.subs) = 3
  /\ \E k \in 1..Len(e.pubs) : e.pubs[k].topic = "ekf_odom"
  /\ Len(e.timers) = 1
  /\ FClose(e.timers[1], FDiv(1, FMax(Par(p, "predict_frequency", "50.0"), "0.1")), "1e-6", "1e-8")

NumSt(p, s, e) ==
  CASE e.ev = "Start" -> IF StartOk(p, e) THEN {s} ELSE {}
    [] e.ev = "Exit" -> IF e.rc = 0 /\ ~e.threw /\ e.out = <<>> THEN {s} ELSE {}
    [] e.ev \in {"Msg", "Timer"} ->
         IF e.ev = "Msg" /\ e.delivered # 1 THEN {}
         ELSE {r.s : r \in {r \in StepOf(p, s, e) : e.ok /\ OutOk(p, r.out, e.out)}}
    [] OTHER -> {}
NumStart(p) == E!Init0
Diagnose(p, s, e) ==
  IF e.ev \in {"Msg", "Timer"}
  THEN LET r == CHOOSE r \in StepOf(p, s, e) : TRUE IN
       <<e.ev, IF r.out = <<>> THEN "expected no output"
               ELSE [x |-> Latest(r.out[1].f), P |-> LatestP(r.out[1].f), z |-> r.out[1].aux, served |-> [k \in 1..Len(r.served) |-> <<r.served[k].kind, r.served[k].ok, r.served[k].d>>]], "got", e.out>>
  ELSE e

T == INSTANCE TraceLib WITH St <- NumSt, Start <- NumStart, Why <- Diagnose
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
