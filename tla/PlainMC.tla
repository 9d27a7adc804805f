-------------------------------- MODULE PlainMC ---------------------------------
(* The ordinary Kalman filter: steps of its own model, steps of a given model,      *)
(* measurements and refused measurements in every order.  After each, the           *)
(* information (inverse covariance) gained is exactly that of the measurement, the  *)
(* covariance never grows by a measurement, and a refusal changes nothing.          *)
EXTENDS DelayFilter, TLC, Json
CONSTANTS Depth, Gen
VARIABLES f, acts, before, did
vars == <<f, acts, before, did>>
A == << <<"1.0", "0.5">>, <<"0.0", "1.0">> >>
B == << <<"0.5">>, <<"1.0">> >>
C == << <<"1.0", "0.0">> >>
Q == << <<"0.1", "0.0">>, <<"0.0", "0.2">> >>
R == << <<"0.4">> >>
A2 == << <<"0.9", "-0.2">>, <<"0.3", "0.8">> >>
Q2 == << <<"0.1", "0.02">>, <<"0.02", "0.3">> >>
Step(s, M, u, N) == FilterPredict(s, MVec(MAdd(MMul(M, MCol(Latest(s))), MMul(B, u))), M, N)
Init == f = FilterInit(<<"1.0", "-0.5">>, << <<"2.0", "0.3">>, <<"0.3", "1.0">> >>, 1) /\ acts = <<>> /\ before = <<>> /\ did = "start"
Do(name, g) == /\ Len(acts) < Depth /\ f' = g /\ before' = <<f>> /\ did' = name /\ acts' = Append(acts, <<name>>)
Next == \/ Do("own", Step(f, A, << <<"1.0">> >>, Q)) \/ Do("given", Step(f, A2, << <<"-2.0">> >>, Q2))
        \/ Do("update", FilterOffer(f, <<"2.0">>, C, R, 0)) \/ Do("refuse", FilterOffer(f, <<"2.0">>, C, << <<"nan">> >>, 0))
        \/ Do("init", FilterInit(<<"0.0", "3.0">>, << <<"1.0", "0.0">>, <<"0.0", "1.0">> >>, 1))
GenNext == IF Len(acts) < Depth THEN Next ELSE PrintT(<<"BEHAVIOUR", ToJson(acts)>>) /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][IF Gen THEN GenNext ELSE Next]_vars
tol == "1e-9"
Information == did = "update" => MClose(MInv(f.P), MAdd(MInv(before[1].P), MMul(MT(C), MMul(MInv(R), C))), tol, tol)
Shrinks == did = "update" => FGe(MMinEig(MSub(before[1].P, f.P)), FNeg(tol))
RefusedUnchanged == did = "refuse" => f = before[1]
SymmetricPSD == Symmetric(f, tol) /\ PSD(f, tol)
================================================================================
