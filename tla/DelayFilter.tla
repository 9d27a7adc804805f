------------------------------ MODULE DelayFilter ------------------------------
(* The fixed-lag Kalman filter: an ordinary Kalman filter over the vector of   *)
(* the last N states, newest first.  State: [x |-> stacked vector (n*N),       *)
(* P |-> its covariance, n |-> state size, N |-> number of states].            *)
EXTENDS Reals64

Stack(x0, N) == [i \in 1..(Len(x0) * N) |-> x0[((i - 1) % Len(x0)) + 1]]
FilterInit(x0, P0, N) ==
  LET n == Len(x0) IN
  [n |-> n, N |-> N,
   x |-> Stack(x0, N),
   P |-> [i \in 1..(n * N) |-> [j \in 1..(n * N) |->
            IF (i - 1) \div n = (j - 1) \div n
            THEN P0[((i - 1) % n) + 1][((j - 1) % n) + 1] ELSE "0.0"]]]

StateAt(f, d) == [i \in 1..f.n |-> f.x[d * f.n + i]]
CovAt(f, d, e) == MBlock(f.P, d * f.n, e * f.n, f.n, f.n)
Latest(f) == StateAt(f, 0)
LatestP(f) == CovAt(f, 0, 0)

(* stacked transition [A 0 .. 0; I 0 .. 0; 0 I ..]: the newest state moves by   *)
(* the model, every other slot takes over its newer neighbour                  *)
BigA(f, A) ==
  [i \in 1..(f.n * f.N) |-> [j \in 1..(f.n * f.N) |->
     IF i <= f.n THEN (IF j <= f.n THEN A[i][j] ELSE "0.0")
     ELSE IF j = i - f.n THEN "1.0" ELSE "0.0"]]
BigQ(f, Q) ==
  [i \in 1..(f.n * f.N) |-> [j \in 1..(f.n * f.N) |->
     IF i <= f.n /\ j <= f.n THEN Q[i][j] ELSE "0.0"]]
FilterPredict(f, xnext, A, Q) ==
  LET F == BigA(f, A) IN
  [f EXCEPT !.x = [i \in 1..(f.n * f.N) |-> IF i <= f.n THEN xnext[i] ELSE f.x[i - f.n]],
            !.P = MAdd(MMul(MMul(F, f.P), MT(F)), BigQ(f, Q))]

BigC(f, C, d) ==
  [i \in 1..Len(C) |-> [j \in 1..(f.n * f.N) |->
     IF (j - 1) \div f.n = d THEN C[i][((j - 1) % f.n) + 1] ELSE "0.0"]]
Gain(f, C, R, d) ==
  LET H == BigC(f, C, d)
      PHt == MMul(f.P, MT(H))
  IN MMul(PHt, MInv(MAdd(R, MMul(H, PHt))))
(* refused: delay outside the buffer, or a gain that is not finite             *)
GainOk(f, C, R, d) == MFinite(Gain(f, C, R, d))
FilterUpdateBy(f, innovation, C, R, d) ==
  LET H == BigC(f, C, d)
      K == Gain(f, C, R, d)
  IN [f EXCEPT !.x = MVec(MAdd(MCol(f.x), MMul(K, MCol(innovation)))),
               !.P = MSub(f.P, MMul(MMul(K, H), f.P))]
Innovation(f, y, C, d) == MVec(MSub(MCol(y), MMul(C, MCol(StateAt(f, d)))))
FilterUpdate(f, y, C, R, d) == FilterUpdateBy(f, Innovation(f, y, C, d), C, R, d)
Refused(f, C, R, d) == d >= f.N \/ ~GainOk(f, C, R, d)
FilterOffer(f, y, C, R, d) == IF Refused(f, C, R, d) THEN f ELSE FilterUpdate(f, y, C, R, d)

(* ------- what the filter is for: the same estimate as if nothing had been late *)
(* A history is a sequence of [A, Q, obs] in order of time, obs the measurements *)
(* that refer to the state reached by that step; history[1] is the start.       *)
PlainUpdate(x, P, y, C, R) ==
  LET PCt == MMul(P, MT(C))
      K == MMul(PCt, MInv(MAdd(R, MMul(C, PCt))))
  IN [x |-> MVec(MAdd(MCol(x), MMul(K, MSub(MCol(y), MMul(C, MCol(x)))))),
      P |-> MSub(P, MMul(MMul(K, C), P))]
RECURSIVE PlainUpdates(_, _, _)
PlainUpdates(x, P, obs) ==
  IF obs = <<>> THEN [x |-> x, P |-> P]
  ELSE LET u == PlainUpdate(x, P, obs[1].y, obs[1].C, obs[1].R)
       IN PlainUpdates(u.x, u.P, Tail(obs))
RECURSIVE PlainRun(_, _, _)
PlainRun(x, P, hist) ==
  IF hist = <<>> THEN [x |-> x, P |-> P]
  ELSE LET h == hist[1]
           xp == MVec(MMul(h.A, MCol(x)))
           Pp == MAdd(MMul(MMul(h.A, P), MT(h.A)), h.Q)
           u == PlainUpdates(xp, Pp, h.obs)
       IN PlainRun(u.x, u.P, Tail(hist))
Symmetric(f, tol) == MClose(f.P, MT(f.P), tol, tol)
PSD(f, tol) == FGe(MMinEig(f.P), FNeg(tol))
===============================================================================
