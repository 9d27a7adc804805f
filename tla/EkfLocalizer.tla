------------------------------ MODULE EkfLocalizer -----------------------------
(* The pose/twist fusion node as a state machine.  The arithmetic is abstract:  *)
(* the constant operators are bound to real arithmetic in EkfTrace (to judge    *)
(* the code) and to symbolic bookkeeping in EkfMC (to explore every schedule).  *)
EXTENDS Integers, Sequences

CONSTANTS
  Life(_, _),              \* (p, kind)            smoothing steps of "pose" / "twist"
  DtSet(_, _, _),          \* (p, last, now)       possible step lengths; {} if now < last
  FInit(_, _, _),          \* (p, msg, tf)         filter started at an initial pose
  FPredict(_, _, _),       \* (p, f, dt)
  Admit(_, _, _, _, _, _), \* (p, f, kind, msg, now, dt)  set of [ok, d]
  FFuse(_, _, _, _, _),    \* (p, f, kind, msg, d)
  AuxInit,                 \* height / roll / pitch filters before any pose
  AuxUpdate(_, _, _)       \* (p, aux, msg)

NoTime == <<>>

Init0 == [run |-> FALSE, f |-> "none", last |-> NoTime, pq |-> <<>>, tq |-> <<>>, aux |-> AuxInit]

Stay(s) == {[s |-> s, out |-> <<>>, served |-> <<>>]}

(* an initial pose: restart, or nothing at all when the frame is unknown         *)
InitialPose(p, s, m, tf) ==
  IF ~tf.ok THEN Stay(s)
  ELSE Stay([s EXCEPT !.run = TRUE, !.f = FInit(p, m, tf), !.pq = <<>>, !.tq = <<>>,
                      !.aux = AuxUpdate(p, s.aux, m)])
Pose(p, s, m) ==
  Stay([s EXCEPT !.pq = Append(@, [m |-> m, age |-> 0]), !.aux = AuxUpdate(p, s.aux, m)])
Twist(p, s, m) == Stay([s EXCEPT !.tq = Append(@, [m |-> m, age |-> 0])])

(* serve the k oldest messages of a queue once                                   *)
RECURSIVE Serve(_, _, _, _, _, _, _, _)
Serve(p, f, kind, q, k, now, dt, served) ==
  IF k = 0 THEN {[f |-> f, q |-> q, served |-> served]}
  ELSE LET e == Head(q)
           rest == IF e.age + 1 < Life(p, kind)
                   THEN Append(Tail(q), [e EXCEPT !.age = @ + 1]) ELSE Tail(q)
       IN UNION {Serve(p, IF a.ok THEN FFuse(p, f, kind, e.m, a.d) ELSE f, kind, rest, k - 1, now, dt,
                       Append(served, [kind |-> kind, m |-> e.m, ok |-> a.ok, d |-> a.d]))
                 : a \in Admit(p, f, kind, e.m, now, dt)}

Report(f, aux, now) == <<[f |-> f, aux |-> aux, now |-> now]>>

Tick(p, s, now) ==
  IF ~s.run THEN Stay(s)
  ELSE UNION {
         UNION {
           {[s |-> [s EXCEPT !.f = b.f, !.last = <<now>>, !.pq = a.q, !.tq = b.q],
             out |-> Report(b.f, s.aux, now),
             served |-> b.served]
            : b \in Serve(p, a.f, "twist", s.tq, Len(s.tq), now, dt, a.served)}
           : a \in Serve(p, FPredict(p, s.f, dt), "pose", s.pq, Len(s.pq), now, dt, <<>>)}
         : dt \in DtSet(p, s.last, now)}
       \cup (IF DtSet(p, s.last, now) = {} THEN Stay(s) ELSE {})
================================================================================
