------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* The frequency-stability statistics as their published sums.             *)
(*                                                                         *)
(* x is a phase series: a sequence (1-based) of rationals.  m is the       *)
(* averaging factor.  Every XxVar operator gives the VARIANCE times tau^2  *)
(* for unit tau0 removed, i.e. the "raw" quantity R with                   *)
(*          deviation^2 = R / tau^2          (AVAR, HVAR, MVAR, ... )      *)
(*          deviation^2 = R                  (TVAR-like, MTIE, TIErms)     *)
(* and every XxN operator the number of terms the estimator averages.      *)
(* Non-positive or undefined n means that the statistic has no estimate    *)
(* at that averaging factor.                                               *)
(***************************************************************************)
EXTENDS Rat, TLC

Half(n) == n \div 2
CeilHalf(n) == (n + 1) \div 2
\* number of i in 1..L with i = 1 (mod s)
StrideCount(L, s) == IF L <= 0 THEN 0 ELSE ((L - 1) \div s) + 1

D2(x, m, i) == RAdd(RSub(x[i+2*m], RMul(I(2), x[i+m])), x[i])
D3(x, m, i) == RSub(RAdd(RSub(x[i+3*m], RMul(I(3), x[i+2*m])), RMul(I(3), x[i+m])), x[i])

(****************************** Allan family *******************************)
AdevN(N, m)  == StrideCount(N - 2*m, m)
OadevN(N, m) == Max2(N - 2*m, 0)
ASum(x, m, s, n) == RSumR(LAMBDA k : RSq(D2(x, m, 1 + (k-1)*s)), 1, n)
AdevRaw(x, m)  == RDiv(ASum(x, m, m, AdevN(Len(x), m)), I(2*AdevN(Len(x), m)))
OadevRaw(x, m) == RDiv(ASum(x, m, 1, OadevN(Len(x), m)), I(2*OadevN(Len(x), m)))

(***************************** Hadamard family *****************************)
HdevN(N, m)  == StrideCount(N - 3*m, m)
OhdevN(N, m) == Max2(N - 3*m, 0)
HSum(x, m, s, n) == RSumR(LAMBDA k : RSq(D3(x, m, 1 + (k-1)*s)), 1, n)
HdevRaw(x, m)  == RDiv(HSum(x, m, m, HdevN(Len(x), m)), I(6*HdevN(Len(x), m)))
OhdevRaw(x, m) == RDiv(HSum(x, m, 1, OhdevN(Len(x), m)), I(6*OhdevN(Len(x), m)))

(************************ modified Allan, parabolic ************************)
MdevN(N, m) == Max2(N - 3*m + 1, 0)
\* prefix sums: PSum(x)[k+1] = x[1] + ... + x[k]
PSum(x) == RScan(x)
\* definition: for each j the second difference of the m-point phase averages
MdevInnerDef(x, m, j) == RSumR(LAMBDA i : D2(x, m, i), j, j + m - 1)
MdevRawDef(x, m) ==
    LET n == MdevN(Len(x), m) IN
    RDiv(RSumR(LAMBDA j : RSq(MdevInnerDef(x, m, j)), 1, n), RMul(I(2*n), RSq(I(m))))
\* the same with prefix sums p = PSum(x): the inner sum is a second difference of window sums
MdevInner(p, m, j) == RAdd(RSub(RSub(p[j+3*m], p[j+2*m]), RMul(I(2), RSub(p[j+2*m], p[j+m]))),
                           RSub(p[j+m], p[j]))
MdevRaw(x, m) ==
    LET n == MdevN(Len(x), m)  p == PSum(x) IN
    RDiv(RSumR(LAMBDA j : RSq(MdevInner(p, m, j)), 1, n), RMul(I(2*n), RSq(I(m))))
\* TDEV^2 = tau^2 MVAR / 3
TdevVal(x, m) == RDiv(MdevRaw(x, m), I(3))

PdevN(N, m) == Max2(N - 2*m, 0)
PdevInner(x, m, i) == RSumR(LAMBDA k : RMul(Q(m - 1 - 2*k, 2), RSub(x[i+k], x[i+m+k])), 0, m-1)
PdevRaw(x, m) ==
    IF m = 1 THEN OadevRaw(x, m)
    ELSE LET n == PdevN(Len(x), m) IN
         RDiv(RMul(I(72), RSumR(LAMBDA i : RSq(PdevInner(x, m, i)), 1, n)),
              RMul(I(n), RPow(I(m), 4)))

\* the same with prefix sums p of x and q of (index times x)
MomSum(x) == PSum([k \in 1..Len(x) |-> RMul(I(k), x[k])])
PdevInnerP(p, q, m, i) ==
    LET w0(a) == RSub(p[a+m], p[a])
        w1(a) == RSub(RSub(q[a+m], q[a]), RMul(I(a), w0(a)))
    IN  RSub(RMul(Q(m - 1, 2), RSub(w0(i), w0(i+m))), RSub(w1(i), w1(i+m)))
PdevRawP(x, m) ==
    IF m = 1 THEN OadevRaw(x, m)
    ELSE LET n == PdevN(Len(x), m)  p == TLCEval(PSum(x))  q == TLCEval(MomSum(x)) IN
         RDiv(RMul(I(72), RSumR(LAMBDA i : RSq(PdevInnerP(p, q, m, i)), 1, n)),
              RMul(I(n), RPow(I(m), 4)))

(**************************** total deviations *****************************)
\* odd reflection about both end points
Refl(x, i) == LET N == Len(x) IN
    IF i < 1 THEN RSub(RMul(I(2), x[1]), x[2-i])
    ELSE IF i > N THEN RSub(RMul(I(2), x[N]), x[2*N-i])
    ELSE x[i]
TotdevN(N, m) == N - 2
TotdevRaw(x, m) ==
    LET N == Len(x) IN
    RDiv(RSumR(LAMBDA i : RSq(RAdd(RSub(Refl(x, i-m), RMul(I(2), x[i])), Refl(x, i+m))), 2, N-1),
         I(2*(N-2)))

\* 3m-point segment starting at i, detrended by the slope between its half means,
\* extended by even reflection on both sides; 6m second differences of m-averages
SegMean(x, lo, hi) == RDiv(RSumR(LAMBDA k : x[k], lo, hi), I(hi - lo + 1))
SegSlope(x, m, i) ==
    LET L == 3*m IN
    RDiv(RSub(SegMean(x, i + CeilHalf(L), i + L - 1), SegMean(x, i, i + Half(L) - 1)),
         IF L % 2 = 1 THEN Q(L + 1, 2) ELSE Q(L, 2))
SegStar(x, m, i) ==         \* sequence of 9m points; an added constant does not matter
    LET L  == 3*m
        b  == SegSlope(x, m, i)
        x0 == [k \in 1..L |-> RSub(x[i+k-1], RMul(b, I(k-1)))]
        fl == [k \in 1..L |-> x0[L+1-k]]
    IN  fl \o x0 \o fl
SegSum(x, m, i) ==          \* mean over the 6m terms of (m * second difference of averages)^2
    LET p == PSum(SegStar(x, m, i)) IN
    RDiv(RSumR(LAMBDA j : RSq(MdevInner(p, m, j)), 1, 6*m), I(6*m))
MtotN(N, m) == Max2(N - 3*m + 1, 0)
MtotRaw(x, m) ==
    LET n == MtotN(Len(x), m) IN
    RDiv(RSumR(LAMBDA i : SegSum(x, m, i), 1, n), RMul(I(2*n), RSq(I(m))))
TtotVal(x, m) == RDiv(MtotRaw(x, m), I(3))
\* Hadamard total variance acts on frequency data y (gives deviation^2 itself)
HtotN(NF, m) == IF m = 1 THEN Max2(NF + 1 - 3, 0) ELSE Max2(NF - 3*m + 1, 0)
HtotVal(y, m) ==            \* m > 1
    LET n == HtotN(Len(y), m) IN
    RDiv(RSumR(LAMBDA i : SegSum(y, m, i), 1, n), RMul(I(6*n), RSq(I(m))))

\* Theo1, even m; deviation^2 = raw / tau^2 ; ns counts the inner terms
Theo1N(N, m) == Max2(N - m, 0) * (m \div 2)
Theo1Raw(x, m) ==
    LET N == Len(x)  h == m \div 2 IN
    RDiv(RSumR(LAMBDA i : RSumR(LAMBDA d :
            RDiv(RSq(RAdd(RSub(x[i], x[i-d+h]), RSub(x[i+m], x[i+d+h]))), I(h - d)), 0, h-1), 1, N-m),
         RMul(Q(3, 4), I(N-m)))

(*************************** time interval error ***************************)
MtieN(N, m) == Max2(N - m, 0)
PeakToPeak(x, lo, hi) == RSub(RMaxR(LAMBDA k : x[k], lo, hi), RMinR(LAMBDA k : x[k], lo, hi))
MtieDev(x, m) == RMaxR(LAMBDA i : PeakToPeak(x, i, i+m), 1, Len(x) - m)
\* the same by doubling: extremes of 2^k consecutive points, two overlapping blocks cover a window
RECURSIVE MaxTab(_, _), MinTab(_, _), Log2(_)
MaxTab(x, k) == IF k = 0 THEN x ELSE LET t == MaxTab(x, k-1)  h == 2^(k-1) IN TLCEval([i \in 1..(Len(t)-h) |-> RMax(t[i], t[i+h])])
MinTab(x, k) == IF k = 0 THEN x ELSE LET t == MinTab(x, k-1)  h == 2^(k-1) IN TLCEval([i \in 1..(Len(t)-h) |-> RMin(t[i], t[i+h])])
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
MtieTab(x, m) ==
    LET k == Log2(m + 1)  mx == MaxTab(x, k)  mn == MinTab(x, k)  o == m + 1 - 2^k IN
    RMaxR(LAMBDA i : RSub(RMax(mx[i], mx[i+o]), RMin(mn[i], mn[i+o])), 1, Len(x) - m)
TierVal(x, m) == RDiv(RSumR(LAMBDA i : RSq(RSub(x[i+m], x[i])), 1, Len(x) - m), I(Len(x) - m))

(**************************** two-series moments ***************************)
GcoRaw(x, y, m) ==          \* covariance; the reported deviation is sqrt(|.|)
    LET n == OadevN(Len(x), m) IN
    RDiv(RSumR(LAMBDA i : RMul(D2(x, m, i), D2(y, m, i)), 1, n), I(2*n))

(******************************* conversions *******************************)
\* phase from frequency: remove the mean, integrate, start at zero
FreqToPhase(y, rate) ==
    LET n   == Len(y)
        mu  == RDiv(RSumR(LAMBDA k : y[k], 1, n), I(n))
        p   == PSum([k \in 1..n |-> RSub(y[k], mu)])
    IN  [k \in 1..(n+1) |-> RDiv(p[k], rate)]
PhaseToFreq(x, rate) == [k \in 1..(Len(x)-1) |-> RMul(rate, RSub(x[k+1], x[k]))]
=============================================================================
