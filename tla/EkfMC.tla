-------------------------------- MODULE EkfMC ----------------------------------
(* Every schedule of initial poses, poses, twists and ticks over EkfLocalizer    *)
(* with symbolic arithmetic.  Used twice: exhaustively (invariants below), and    *)
(* as generator of the action sequences that are replayed on the real node.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PoseSteps, TwistSteps, MaxMsg, MaxTick, Depth, Gen,
          IpClasses, PoseClasses, TwistClasses, TickClasses
VARIABLES s, now, hist, arrived, served, published, restarted

(* symbolic filter: what went into it since the last restart                      *)
SymLife(p, kind) == IF kind = "pose" THEN PoseSteps ELSE TwistSteps
SymDt(p, last, t) == IF last = <<>> THEN {1} ELSE IF t < last[1] THEN {} ELSE {t - last[1]}
SymInit(p, m, tf) == [start |-> m.id, log |-> <<>>]
SymPredict(p, f, dt) == [f EXCEPT !.log = Append(@, <<"predict", dt>>)]
Bad == {"stale", "nan", "far", "badcov"}
SymAdmit(p, f, kind, m, t, dt) == IF m.cls \in Bad THEN {[ok |-> FALSE, d |-> 0]} ELSE {[ok |-> TRUE, d |-> 0]}
SymFuse(p, f, kind, m, d) == [f EXCEPT !.log = Append(@, <<kind, m.id>>)]
SymAuxInit == 0
SymAux(p, aux, m) == aux + 1
E == INSTANCE EkfLocalizer WITH Life <- SymLife, DtSet <- SymDt, FInit <- SymInit, FPredict <- SymPredict,
       Admit <- SymAdmit, FFuse <- SymFuse, AuxInit <- SymAuxInit, AuxUpdate <- SymAux

vars == <<s, now, hist, arrived, served, published, restarted>>
Msg(kind, cls) == [id |-> Len(arrived) + 1, kind |-> kind, cls |-> cls]
NTicks == Cardinality({k \in 1..Len(published) : TRUE})
Init == /\ s = E!Init0 /\ now = 1 /\ hist = <<>> /\ arrived = <<>> /\ served = <<>> /\ published = <<>> /\ restarted = 0
Rec(h) == hist' = IF Gen THEN Append(hist, h) ELSE hist
Go(r) == s' = r.s
Ip(c) == /\ Len(arrived) < MaxMsg
         /\ LET m == Msg("initial", c) tf == [ok |-> c # "unknown"] IN
            /\ \E r \in E!InitialPose("p", s, m, tf) : s' = r.s
            /\ restarted' = IF tf.ok THEN Len(arrived) + 1 ELSE restarted
            /\ arrived' = Append(arrived, [m EXCEPT !.kind = "initial"])
         /\ Rec(<<"ip", c>>) /\ UNCHANGED <<now, served, published>>
PoseIn(c) == /\ Len(arrived) < MaxMsg
             /\ \E r \in E!Pose("p", s, Msg("pose", c)) : s' = r.s
             /\ arrived' = Append(arrived, Msg("pose", c))
             /\ Rec(<<"pose", c>>) /\ UNCHANGED <<now, served, published, restarted>>
TwistIn(c) == /\ Len(arrived) < MaxMsg
              /\ \E r \in E!Twist("p", s, Msg("twist", c)) : s' = r.s
              /\ arrived' = Append(arrived, Msg("twist", c))
              /\ Rec(<<"twist", c>>) /\ UNCHANGED <<now, served, published, restarted>>
TickOf(c) == /\ Len(served) < MaxTick
             /\ now' = CASE c = "nominal" -> now + 2 [] c = "same" -> now [] c = "gap" -> now + 9 [] c = "back" -> now - 3 [] OTHER -> now + 1
             /\ \E r \in E!Tick("p", s, now') :
                  /\ s' = r.s
                  /\ served' = Append(served, [k \in 1..Len(r.served) |-> [id |-> r.served[k].m.id, ok |-> r.served[k].ok]])
                  /\ published' = Append(published, Len(r.out))
             /\ Rec(<<"tick", c>>) /\ UNCHANGED <<arrived, restarted>>
Next == \/ \E c \in IpClasses : Ip(c)
        \/ \E c \in PoseClasses : PoseIn(c)
        \/ \E c \in TwistClasses : TwistIn(c)
        \/ \E c \in TickClasses : TickOf(c)
(* generated behaviours: initial poses are rare, every behaviour is printed once  *)
GenNext ==
  IF Len(hist) < Depth
  THEN \/ (~s.run \/ Len(hist) % 9 = 5) /\ \E c \in IpClasses : Ip(c)
       \/ \E c \in PoseClasses : PoseIn(c)
       \/ \E c \in TwistClasses : TwistIn(c)
       \/ \E c \in TickClasses : TickOf(c)
  ELSE /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
       /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][IF Gen THEN GenNext ELSE Next]_vars

-------------------------------------------------------------------------------
Ids == 1..Len(arrived)
TicksServing(id) == {k \in 1..Len(served) : \E j \in 1..Len(served[k]) : served[k][j].id = id}
Kind(id) == arrived[id].kind
LifeOf(id) == SymLife("p", Kind(id))

(* never more than the configured number of ticks, in consecutive live ticks, once each *)
AtMostLife == \A id \in Ids : Cardinality(TicksServing(id)) <= (IF Kind(id) = "initial" THEN 0 ELSE LifeOf(id))
OncePerTick == \A k \in 1..Len(served) : \A a, b \in 1..Len(served[k]) : a # b => served[k][a].id # served[k][b].id
Consecutive == \A id \in Ids : \A a, b \in TicksServing(id) : \A k \in a..b : published[k] = 1 => k \in TicksServing(id)
(* still queued exactly when it has life left and no restart came after it               *)
Queued(id) == (\E k \in 1..Len(s.pq) : s.pq[k].m.id = id) \/ (\E k \in 1..Len(s.tq) : s.tq[k].m.id = id)
QueuedIffAlive == \A id \in Ids : Kind(id) # "initial" =>
                    (Queued(id) <=> (id > restarted /\ Cardinality(TicksServing(id)) < LifeOf(id)))
FifoPosesFirst == \A k \in 1..Len(served) : \A a, b \in 1..Len(served[k]) : a < b =>
                    LET x == served[k][a].id  y == served[k][b].id IN
                    IF Kind(x) = Kind(y) THEN x < y ELSE Kind(x) = "pose" /\ Kind(y) = "twist"
SilentBeforeStart == restarted = 0 => \A k \in 1..Len(published) : published[k] = 0
InadmissibleNeverFused == s.run => \A k \in 1..Len(s.f.log) : s.f.log[k][1] \in {"pose", "twist"} =>
                            arrived[s.f.log[k][2]].cls \notin Bad /\ s.f.log[k][2] > restarted
OnePredictPerReport == s.run => Cardinality({k \in 1..Len(s.f.log) : s.f.log[k][1] = "predict"}) <= Cardinality({k \in 1..Len(published) : published[k] = 1})
================================================================================
