--------------------------------- MODULE DriveMC ---------------------------------
(* The closed loop with errors in whole steps: dist (of the position, 1 mm) and turn *)
(* (of the heading, 0.02 degrees), the numbers being those of Drive.tla.  A heading error makes the position drift as the vehicle moves.     *)
(* A registration started within the basin answers well; the answer reaches the      *)
(* filter later, up to MaxLate being under way, and moves it part of the way.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Dist0, Turn0,         \* the error at the first scan at most
          BasinD, BasinT,       \* registration works from here, and its answers stay within
          GoodD, GoodT,         \* how good nearly all answers are
          Apart,                \* good answers between two others
          Keep,                 \* of 100: what fusing leaves of an error
          NoiseD, NoiseT, Lever, \* per scan interval
          MaxLate               \* answers under way
VARIABLES dist, turn, answers, since, moved, lost
vars == <<dist, turn, answers, since, moved, lost>>
Init == /\ dist \in {0, Dist0} /\ turn \in {0, Turn0} /\ answers = <<>> /\ since = Apart /\ moved = FALSE /\ lost = FALSE
(* a scan is registered from the filter's pose; errors in between the extremes lie in between *)
Answered(d, t) == answers' = Append(answers, <<d, t>>) /\ UNCHANGED lost
Scan == /\ Len(answers) < MaxLate
        /\ IF dist <= BasinD /\ turn <= BasinT
           THEN \/ \E d \in {0, GoodD}, t \in {0, GoodT} : Answered(d, t) /\ since' = IF since < Apart THEN since + 1 ELSE since
                \/ since = Apart /\ Answered(BasinD, BasinT) /\ since' = 0
           ELSE lost' = TRUE /\ UNCHANGED <<answers, since>>
        /\ UNCHANGED <<dist, turn, moved>>
Part(x, a) == LET y == (x * Keep + a * (100 - Keep)) IN (y + 99) \div 100
Fuse == /\ answers # <<>> /\ answers' = Tail(answers) /\ moved' = FALSE
        /\ dist' = Part(dist, Head(answers)[1]) /\ turn' = Part(turn, Head(answers)[2])
        /\ UNCHANGED <<since, lost>>
(* driving on until the next scan; a heading error of Lever steps moves the position by one step *)
Move == /\ ~moved /\ moved' = TRUE
        /\ \E n \in {0, NoiseD} : dist' = dist + (turn + Lever - 1) \div Lever + n
        /\ \E n \in {0, NoiseT} : turn' = turn + n
        /\ UNCHANGED <<answers, since, lost>>
Next == Scan \/ Fuse \/ Move
Spec == Init /\ [][Next]_vars
NeverLost == ~lost
InBasin == dist <= BasinD /\ turn <= BasinT
================================================================================
