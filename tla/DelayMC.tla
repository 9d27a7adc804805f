-------------------------------- MODULE DelayMC --------------------------------
(* Every interleaving of predictions and updates (late, refused, unusable) up to  *)
(* a depth, with real arithmetic on a small linear system.  The fixed-lag filter   *)
(* must give the estimate that an ordinary filter gives when the same measurements *)
(* arrive on time.                                                                 *)
EXTENDS DelayFilter, FiniteSets, TLC, Json
CONSTANTS N, Depth, Gen
VARIABLES f, hist, acts, prev

As == <<<< <<"1.0", "0.5">>, <<"0.0", "1.0">> >>, << <<"0.9", "-0.2">>, <<"0.3", "0.8">> >>>>
Qs == <<<< <<"0.0", "0.0">>, <<"0.0", "0.25">> >>, << <<"0.1", "0.02">>, <<"0.02", "0.3">> >>>>
Cs == <<<< <<"1.0", "0.0">> >>, << <<"0.5", "1.0">>, <<"1.0", "0.0">> >>>>
Rs == <<<< <<"0.4">> >>, << <<"0.5", "0.1">>, <<"0.1", "0.2">> >>>>
Ys == <<<<"2.0">>, <<"-1.0", "0.7">>>>
RBad == << << <<"nan">> >>, << <<"nan", "0.0">>, <<"0.0", "nan">> >>>>
x0 == <<"1.0", "-0.5">>
P0 == << <<"2.0", "0.3">>, <<"0.3", "1.0">> >>

Init == /\ f = FilterInit(x0, P0, N)
        /\ hist = <<[A |-> MId(2), Q |-> MZero(2, 2), obs |-> <<>>]>>
        /\ acts = <<>> /\ prev = <<>>
Predict(k) == /\ f' = FilterPredict(f, MVec(MMul(As[k], MCol(Latest(f)))), As[k], Qs[k])
              /\ hist' = Append(hist, [A |-> As[k], Q |-> Qs[k], obs |-> <<>>])
              /\ acts' = Append(acts, <<"predict", k, 0>>)
              /\ prev' = <<>>
Update(k, d) == /\ d < N /\ d < Len(hist)
                /\ f' = FilterOffer(f, Ys[k], Cs[k], Rs[k], d)
                /\ hist' = [hist EXCEPT ![Len(hist) - d].obs = Append(@, [y |-> Ys[k], C |-> Cs[k], R |-> Rs[k]])]
                /\ acts' = Append(acts, <<"update", k, d>>)
                /\ prev' = <<>>
Refuse(k, d) == /\ f' = FilterOffer(f, Ys[k], Cs[k], IF d >= N THEN Rs[k] ELSE RBad[k], d)
                /\ acts' = Append(acts, <<"refuse", k, d>>)
                /\ prev' = <<f>> /\ UNCHANGED hist
Next == /\ Len(acts) < Depth
        /\ \/ \E k \in 1..2 : Predict(k)
           \/ \E k \in 1..2, d \in 0..(N - 1) : Update(k, d)
           \/ \E k \in 1..2, d \in {0, N - 1, N, N + 3} : Refuse(k, d)
GenNext == IF Len(acts) < Depth THEN Next
           ELSE PrintT(<<"BEHAVIOUR", ToJson(acts)>>) /\ FALSE /\ UNCHANGED <<f, hist, acts, prev>>
Spec == Init /\ [][IF Gen THEN GenNext ELSE Next]_<<f, hist, acts, prev>>

tol == "1e-9"
AsIfOnTime == LET r == PlainRun(x0, P0, hist) IN
              /\ VClose(Latest(f), r.x, tol, tol)
              /\ MClose(LatestP(f), r.P, tol, tol)
SymmetricPSD == Symmetric(f, tol) /\ PSD(f, tol)
RefusedUnchanged == prev = <<>> \/ f = prev[1]
================================================================================
