------------------------------ MODULE Realtime ------------------------------
(***************************************************************************)
(* Streaming estimators of OADEV, OHDEV and TDEV/MDEV.  An object is a     *)
(* record; AddPhase / AddFreq are its transitions.  The sums are kept the  *)
(* way a streaming estimator keeps them (Dobrogowski & Kasznia 2007);      *)
(* MC_Realtime proves on every short stream that what an object reports is *)
(* the batch statistic of the points so far.                               *)
(***************************************************************************)
EXTENDS Stats, TLC

\* factor number k = 0, 1, 2, ... of the grid with p points per decade: round(10^(k/p))
RECURSIVE GridIn(_, _, _, _)
GridIn(k, p, lo, hi) ==         \* smallest v with 10^k <= (v + 1/2)^p
    IF lo = hi THEN lo
    ELSE LET v == (lo + hi) \div 2 IN
         IF RCmp(RPow(I(10), k), RPow(Q(2*v+1, 2), p)) <= 0 THEN GridIn(k, p, lo, v) ELSE GridIn(k, p, v + 1, hi)
Grid(k, p) == LET d == k \div p IN GridIn(k, p, 10^d, 10^(d+1))      \* d <= 7

NewObj(kind, afs, tau0, auto, ppd) ==
    LET a == IF auto THEN <<1>> ELSE afs IN
    [kind |-> kind, tau0 |-> tau0, auto |-> auto, ppd |-> ppd, pos |-> 0, afs |-> a,
     x |-> <<>>, in |-> [i \in 1..Len(a) |-> R0], sum |-> [i \in 1..Len(a) |-> R0]]

\* new factors: as soon as 2m+1 points are there
RECURSIVE Grow(_)
Grow(o) ==
    IF ~o.auto THEN o
    ELSE LET m == Grid(o.pos + 1, o.ppd) IN
         IF Len(o.x) < 2*m + 1 THEN o
         ELSE Grow([o EXCEPT !.pos = @ + 1, !.afs = Append(@, m), !.in = Append(@, R0), !.sum = Append(@, R0)])

\* the inner sum of the modified variance starts as m second differences and slides by third differences
Inner(o, k) ==
    LET m == o.afs[k]  n == Len(o.x)  x == o.x IN
    IF n >= 3*m + 1 THEN RAdd(o.in[k], D3(x, m, n - 3*m))
    ELSE IF n >= 2*m + 1 THEN RAdd(o.in[k], D2(x, m, n - 2*m))
    ELSE o.in[k]
Sum(o, k, inner) ==
    LET m == o.afs[k]  n == Len(o.x)  x == o.x IN
    CASE o.kind = "oadev" -> IF n >= 2*m + 1 THEN RAdd(o.sum[k], RSq(D2(x, m, n - 2*m))) ELSE o.sum[k]
      [] o.kind = "ohdev" -> IF n >= 3*m + 1 THEN RAdd(o.sum[k], RSq(D3(x, m, n - 3*m))) ELSE o.sum[k]
      [] o.kind = "tdev"  -> IF n >= 3*m THEN RAdd(o.sum[k], RSq(inner)) ELSE o.sum[k]
AddPhase(o, v) ==
    LET a == Grow([o EXCEPT !.x = Append(@, v)])
        inn == TLCEval([k \in 1..Len(a.afs) |-> IF a.kind = "tdev" THEN Inner(a, k) ELSE R0])
    IN  [a EXCEPT !.in = inn, !.sum = TLCEval([k \in 1..Len(a.afs) |-> Sum(a, k, inn[k])])]
AddFreq(o, f) ==
    LET a == IF o.x = <<>> THEN AddPhase(o, R0) ELSE o IN
    AddPhase(a, RAdd(a.x[Len(a.x)], RMul(f, a.tau0)))

(* Many points in one transition.  The sums after it follow from the points   *)
(* alone; MC_Realtime checks that this is the same as adding them singly.    *)
FullSums(o) ==
    LET x == o.x  n == Len(x)  K == Len(o.afs)
        pp == TLCEval(IF o.kind = "tdev" THEN PSum(x) ELSE <<>>)
        inn(m) == IF o.kind # "tdev" \/ n < 2*m + 1 THEN R0
                  ELSE IF n >= 3*m THEN MdevInner(pp, m, n - 3*m + 1)
                  ELSE RSumR(LAMBDA j : D2(x, m, j), 1, n - 2*m)
        sum(m) == CASE o.kind = "oadev" -> ASum(x, m, 1, OadevN(n, m))
                    [] o.kind = "ohdev" -> HSum(x, m, 1, OhdevN(n, m))
                    [] o.kind = "tdev"  -> RSumR(LAMBDA j : RSq(MdevInner(pp, m, j)), 1, MdevN(n, m))
    IN  [o EXCEPT !.in = TLCEval([k \in 1..K |-> inn(o.afs[k])]), !.sum = TLCEval([k \in 1..K |-> sum(o.afs[k])])]
AddPhases(o, vs) == IF vs = <<>> THEN o ELSE FullSums(Grow([o EXCEPT !.x = @ \o vs]))
AddFreqs(o, fs) ==
    IF fs = <<>> THEN o
    ELSE LET a == IF o.x = <<>> THEN AddPhase(o, R0) ELSE o
             last == a.x[Len(a.x)]
             c == RScan([i \in 1..Len(fs) |-> RMul(fs[i], a.tau0)])
         IN  AddPhases(a, TLCEval([i \in 1..Len(fs) |-> RAdd(last, c[i+1])]))

(* squared deviation reported for factor number k, times (m tau0)^2 for the frequency-like kinds *)
Terms(o, k) == CASE o.kind = "oadev" -> OadevN(Len(o.x), o.afs[k])
                 [] o.kind = "ohdev" -> OhdevN(Len(o.x), o.afs[k])
                 [] o.kind = "tdev"  -> MdevN(Len(o.x), o.afs[k])
RawDev(o, k) ==
    LET n == Terms(o, k)  m == o.afs[k] IN
    IF n = 0 THEN R0
    ELSE CASE o.kind = "oadev" -> RDiv(o.sum[k], I(2*n))
           [] o.kind = "ohdev" -> RDiv(o.sum[k], I(6*n))
           [] o.kind = "tdev"  -> RDiv(o.sum[k], RMul(I(6*n), RSq(I(m))))
\* the batch statistic of the same points
BatchDev(o, k) ==
    LET m == o.afs[k] IN
    IF Terms(o, k) = 0 THEN R0
    ELSE CASE o.kind = "oadev" -> OadevRaw(o.x, m)
           [] o.kind = "ohdev" -> OhdevRaw(o.x, m)
           [] o.kind = "tdev"  -> TdevVal(o.x, m)
\* deviation^2 (TDEV), deviation^2 (ADEV, HDEV); MDEV^2 = 3 TDEV^2 / tau^2
Tau(o, k) == RMul(I(o.afs[k]), o.tau0)
Dev2(o, k)  == IF o.kind = "tdev" THEN RawDev(o, k) ELSE RDiv(RawDev(o, k), RSq(Tau(o, k)))
Mdev2(o, k) == RDiv(RMul(I(3), RawDev(o, k)), RSq(Tau(o, k)))
=============================================================================
