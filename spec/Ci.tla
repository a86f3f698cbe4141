--------------------------------- MODULE Ci ---------------------------------
(***************************************************************************)
(* Confidence intervals: degrees of freedom, chi-squared intervals and     *)
(* noise identification (NIST SP1065, Greenhall & Riley 2003/2004, Riley's *)
(* lag-1 autocorrelation method).                                          *)
(***************************************************************************)
EXTENDS Stats, Elem, TLC
Inf == <<"inf">>
Refuse == [ok |-> FALSE, v |-> R0]
Val(v) == [ok |-> TRUE, v |-> v]

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE (Binom(n, k-1) * (n - k + 1)) \div k
Odd(n) == n % 2 # 0

(********************* Greenhall & Riley: sums s_w, s_x, s_z ****************)
\* eqn (7): |t|^(3-a), with a logarithm when a is odd; the sign is that of the paper
Sw(t, a) ==
    LET u == RAbs(t) IN
    IF RSgn(u) = 0 THEN R0
    ELSE LET p == RPow(u, 3 - a)
             w == IF Odd(a) THEN RMul(p, RLn(u)) ELSE p
         IN  IF a \in {2, -1, -2} THEN RNeg(w) ELSE w
\* eqn (8); F is a rational or Inf
Sx(t, F, a) ==
    IF F = Inf THEN Sw(t, a + 2)
    ELSE LET h == RDiv(R1, F) IN
         RMul(RSq(F), RSub(RMul(I(2), Sw(t, a)), RAdd(Sw(RSub(t, h), a), Sw(RAdd(t, h), a))))
\* eqn (9): the 2d-th central difference
Sz(t, F, a, d) ==
    RSumR(LAMBDA k : RMul(I((IF Odd(k) THEN -1 ELSE 1) * Binom(2*d, d + k)), Sx(RAdd(t, I(k)), F, a)), -d, d)
\* eqn (10); J, M integers, S and F rationals
BasicSum(J, M, S, F, a, d) ==
    LET sq(j) == RSq(Sz(RDiv(I(j), S), F, a, d))
    IN  RAdd(RAdd(sq(0), RMul(RSub(R1, Q(J, M)), sq(J))),
             RSumR(LAMBDA j : RMul(RMul(I(2), RSub(R1, Q(j, M))), sq(j)), 1, J - 1))
EdfSum(J, M, S, F, a, d) == RDiv(RMul(RSq(Sz(R0, F, a, d)), I(M)), BasicSum(J, M, S, F, a, d))

\* eqn (13), F a divisor of m
EdfPlain(a, d, m, S, F, N) ==
    LET L == (m \div F) + m * d
        M == 1 + (S * (N - L)) \div m
    IN  EdfSum(Min2(M, (d + 1) * S), M, I(S), I(F), a, d)

T1 == <<<<Q(2, 3), Q(1, 3)>>, <<Q(7, 9), Q(1, 2)>>, <<Q(22, 25), Q(2, 3)>>,
        <<Q(840, 1000), Q(345, 1000)>>, <<Q(997, 1000), Q(616, 1000)>>, <<Q(1141, 1000), Q(843, 1000)>>,
        <<Q(1079, 1000), Q(368, 1000)>>, <<Q(1033, 1000), Q(607, 1000)>>, <<Q(1184, 1000), Q(848, 1000)>>,
        <<>>, <<Q(1048, 1000), Q(534, 1000)>>, <<Q(1180, 1000), Q(816, 1000)>>,
        <<>>, <<Q(1302, 1000), Q(535, 1000)>>, <<Q(1175, 1000), Q(777, 1000)>>,
        <<>>, <<>>, <<Q(1194, 1000), Q(703, 1000)>>,
        <<>>, <<>>, <<Q(1489, 1000), Q(702, 1000)>>>>
T2 == <<<<Q(3, 2), Q(1, 2)>>, <<Q(35, 18), R1>>, <<Q(231, 100), Q(3, 2)>>,
        <<Q(786, 10), Q(252, 10)>>, <<I(790), I(410)>>, <<I(9950), I(6520)>>,
        <<Q(2, 3), Q(1, 6)>>, <<Q(2, 3), Q(1, 3)>>, <<Q(7, 9), Q(1, 2)>>,
        <<>>, <<Q(852, 1000), Q(375, 1000)>>, <<Q(997, 1000), Q(617, 1000)>>,
        <<>>, <<Q(1079, 1000), Q(368, 1000)>>, <<Q(1033, 1000), Q(607, 1000)>>,
        <<>>, <<>>, <<Q(1053, 1000), Q(553, 1000)>>,
        <<>>, <<>>, <<Q(1302, 1000), Q(535, 1000)>>>>
T3 == <<<<I(6), I(4)>>, <<Q(1523, 100), I(12)>>, <<Q(478, 10), I(40)>>>>
Tab(T, a, d) == T[3 * (2 - a) + d]
Linear(c, r) == RDiv(RSub(c[1], RDiv(c[2], r)), r)        \* (1/r)(a0 - a1/r)
JMax == 100

\* a = alpha in -4..2, d in 1..3, m >= 1, N phase points, N not below the filter length
Shape(d, m, N, over, mod) ==
    LET F == IF mod THEN 1 ELSE m
        S == IF over THEN m ELSE 1
        L == m \div F + m * d
        M == 1 + (S * (N - L)) \div m
    IN  [F |-> F, S |-> S, L |-> L, M |-> M, J |-> Min2(M, (d + 1) * S), r |-> Q(M, S)]
Covered(a, d) == a + 2*d > 1 /\ a \in -4..2 /\ d \in 1..3
Case(a, d, m, N, over, mod) ==
    LET h == Shape(d, m, N, over, mod)
        c == IF mod THEN 1 ELSE IF a <= 0 THEN 2 ELSE IF a = 1 THEN 3 ELSE 4
    IN  IF c = 4 THEN IF RCmp(h.r, I(d)) <= 0 THEN "4.1" ELSE "4.2"
        ELSE LET k == IF h.J <= JMax THEN ".1" ELSE IF RCmp(h.r, I(d + 1)) > 0 THEN ".2" ELSE ".3"
             IN  ToString(c) \o k
Greenhall(a, d, m, N, over, mod) ==
    IF ~Covered(a, d) THEN Refuse
    ELSE LET h  == Shape(d, m, N, over, mod)
             S  == I(h.S)
             mp == RDiv(I(JMax), h.r)
             b  == RAdd(T3[d][1], RMul(T3[d][2], RLn(I(m))))
         IN CASE Case(a, d, m, N, over, mod) = "1.1" -> Val(EdfSum(h.J, h.M, S, R1, a, d))
              [] Case(a, d, m, N, over, mod) = "1.2" -> Val(RDiv(R1, Linear(Tab(T1, a, d), h.r)))
              [] Case(a, d, m, N, over, mod) = "1.3" -> Val(EdfSum(JMax, JMax, mp, R1, a, d))
              [] Case(a, d, m, N, over, mod) = "2.1" -> Val(EdfSum(h.J, h.M, S, IF m * (d + 1) <= JMax THEN I(m) ELSE Inf, a, d))
              [] Case(a, d, m, N, over, mod) = "2.2" -> Val(RDiv(R1, Linear(Tab(T2, a, d), h.r)))
              [] Case(a, d, m, N, over, mod) = "2.3" -> Val(EdfSum(JMax, JMax, mp, Inf, a, d))
              [] Case(a, d, m, N, over, mod) = "3.1" -> Val(EdfSum(h.J, h.M, S, I(m), 1, d))
              [] Case(a, d, m, N, over, mod) = "3.2" -> Val(RDiv(RSq(b), Linear(Tab(T2, a, d), h.r)))
              [] Case(a, d, m, N, over, mod) = "3.3" -> Val(RDiv(RMul(RSq(b), I(JMax)), BasicSum(JMax, JMax, mp, mp, 1, d)))
              [] Case(a, d, m, N, over, mod) = "4.1" -> Refuse
              [] Case(a, d, m, N, over, mod) = "4.2" ->
                   Val(RDiv(I(h.M), RSub(RDiv(I(Binom(4*d, 2*d)), RSq(I(Binom(2*d, d)))), RDiv(Q(d, 2), h.r))))

(************************ SP1065 tables 5, 7 and 8 *************************)
Known == {2, 1, 0, -1, -2}
EdfSimple(N, m, a) ==
    LET n == I(N)  q == I(m)  n1 == I(N - 1)  q4 == RMul(I(4), RSq(q)) IN
    CASE a = 2  -> Val(RDiv(RMul(I(N + 1), I(N - 2*m)), I(2 * (N - m))))
      [] a = 1  -> LET l1 == RLn(RDiv(n1, I(2*m)))  l2 == RLn(RDiv(RMul(I(2*m + 1), n1), I(4))) IN
                   IF RSgn(RMul(l1, l2)) < 0 THEN Refuse ELSE Val(RExp(RSqrt(RMul(l1, l2))))
      [] a = 0  -> Val(RMul(RSub(RDiv(RMul(I(3), n1), I(2*m)), RDiv(RMul(I(2), I(N - 2)), n)), RDiv(q4, RAdd(q4, I(5)))))
      [] a = -1 -> IF m = 1 THEN Val(RDiv(RMul(I(2), RSq(I(N-2))), RSub(RMul(Q(23, 10), n), Q(49, 10))))
                   ELSE Val(RDiv(RMul(I(5), RSq(n)), RMul(I(4*m), RAdd(n, I(3*m)))))
      [] a = -2 -> Val(RMul(RDiv(I(N - 2), RMul(q, RSq(I(N - 3)))), RAdd(RSub(RSq(n1), RMul(I(3*m), n1)), q4)))
      [] OTHER  -> Val(n1)
T7 == <<<<Q(3, 2), R0>>, <<Q(117, 100), Q(22, 100)>>, <<Q(93, 100), Q(36, 100)>>>>
T8 == <<<<Q(19, 10), Q(21, 10)>>, <<Q(12, 10), Q(14, 10)>>, <<Q(11, 10), Q(12, 10)>>, <<Q(85, 100), Q(50, 100)>>, <<Q(75, 100), Q(31, 100)>>>>
Line(c, N, m) == RSub(RMul(c[1], Q(N, m)), c[2])
EdfTot(N, m, a) == IF a \in {0, -1, -2} THEN Val(Line(T7[1 - a], N, m)) ELSE EdfSimple(N, m, a)
EdfMtot(N, m, a) == IF a \in Known THEN Val(Line(T8[3 - a], N, m)) ELSE Refuse

(************************* chi-squared intervals ***************************)
ChiP(x, nu) == GammaP(RDiv(nu, I(2)), RDiv(x, I(2)))
\* lo, hi are the interval of d with nu degrees of freedom at level c, up to relative tolerance tol on the tail probability
TailOk(p, want, tol) == RCmp(RAbs(RSub(p, want)), RMul(tol, want)) <= 0
IsInterval(lo, hi, d, nu, c, tol) ==
    LET tail == RDiv(RSub(R1, c), I(2))
        s == RMul(nu, RSq(d))
    IN  /\ RSgn(lo) > 0 /\ RCmp(lo, hi) < 0
        /\ TailOk(RSub(R1, ChiP(RDiv(s, RSq(lo)), nu)), tail, tol)
        /\ TailOk(ChiP(RDiv(s, RSq(hi)), nu), tail, tol)

(*************************** noise identification **************************)
Mean(x) == RDiv(RSumR(LAMBDA k : x[k], 1, Len(x)), I(Len(x)))
RECURSIVE TakeEvery(_, _, _, _)
TakeEvery(x, s, k, acc) == IF k > Len(x) THEN acc ELSE TakeEvery(x, s, k + s, Append(acc, x[k]))
Averages(y, m) == TLCEval([k \in 1..(Len(y) \div m) |-> RDiv(RSumR(LAMBDA j : y[j], (k-1)*m + 1, k*m), I(m))])
\* least squares with the discrete orthogonal polynomials of degree 0, 1, 2
Ortho(n, g, k) == LET s == 2*k - n - 1 IN
    CASE g = 0 -> I(1) [] g = 1 -> I(s) [] g = 2 -> RSub(RSq(I(s)), RDiv(RSub(RSq(I(n)), R1), I(3)))
Detrend(x, deg) ==
    LET n == Len(x)
        c == TLCEval([g \in 0..2 |-> IF g > deg \/ n <= g THEN R0 ELSE
               RDiv(RSumR(LAMBDA k : RMul(x[k], Ortho(n, g, k)), 1, n), RSumR(LAMBDA k : RSq(Ortho(n, g, k)), 1, n))])
    IN  TLCEval([k \in 1..n |-> RSub(x[k], RSumR(LAMBDA g : RMul(c[g], Ortho(n, g, k)), 0, deg))])
Energy(x) == LET mu == Mean(x) IN RSumR(LAMBDA k : RSq(RSub(x[k], mu)), 1, Len(x))
Lag1(x) == LET mu == Mean(x) IN
    RDiv(RSumR(LAMBDA k : RMul(RSub(x[k], mu), RSub(x[k+1], mu)), 1, Len(x) - 1), Energy(x))
Diff(x) == TLCEval([k \in 1..(Len(x)-1) |-> RSub(x[k+1], x[k])])
\* the accepted outcomes <<d, rho>>; two when rho is within 10^-7 of the limit.
\* {} when a series without usable variation (below floor) is met: no statement
NidTol == Q(1, 10000000)
RECURSIVE NoiseLoop(_, _, _, _, _)
NoiseLoop(x, d, dmin, dmax, floor) ==
    LET e == Energy(x) IN
    IF RCmp(e, floor) <= 0 THEN {}
    ELSE LET r1  == Lag1(x)
             rho == RDiv(r1, RAdd(R1, r1))
             gap == RSub(rho, Q(1, 4))
             stop == d >= dmin /\ (d >= dmax \/ RCmp(gap, NidTol) < 0)
             go   == d < dmin \/ (d < dmax /\ RCmp(gap, RNeg(NidTol)) > 0)
             more == IF go THEN NoiseLoop(Diff(x), d + 1, dmin, dmax, floor) ELSE {}
         IN  IF go /\ more = {} THEN {}
             ELSE (IF stop THEN {<<d, rho>>} ELSE {}) \cup more
Prepared(x, m, dt) == IF dt = "phase" THEN TakeEvery(x, m, 1, <<>>) ELSE Averages(x, m)
NoiseId(x, m, dt, dmin, dmax) ==
    LET p == Prepared(x, m, dt)
        M == RMaxR(LAMBDA k : RAbs(x[k]), 1, Len(x))
        floor == RMul(RSq(RMul(M, Q(1, 100000000))), I(Len(p)))
    IN  IF Len(p) < 30 THEN [ok |-> FALSE, s |-> {}]
        ELSE [ok |-> TRUE, s |-> NoiseLoop(Detrend(p, IF dt = "phase" THEN 2 ELSE 1), 0, dmin, dmax, floor)]
\* the real-valued exponent
Alpha(c, dt) == RSub(IF dt = "phase" THEN I(2) ELSE R0, RMul(I(2), RAdd(c[2], I(c[1]))))

(*************************** R(n) and B1 ratios ****************************)
RnRatio(x, m) == RDiv(MdevRaw(x, m), AdevRaw(x, m))
Variance(y) == RDiv(Energy(y), I(Len(y) - 1))
\* x phase; fractional frequency averages of m points (unit rate) and AVAR in the same unit
B1Ratio(x, m) == RDiv(Variance(Averages(Diff(x), m)), RDiv(AdevRaw(x, m), RSq(I(m))))
RnTheory(m, b) == IF b = 0 THEN Q(1, m)
    ELSE IF b = -1 THEN RDiv(RMul(I(3), RMul(RLn(Q(256, 27)), Q(1, 2))), RAdd(Q(1038, 1000), RMul(I(3), RLn(RMul(Pi, I(m))))))
    ELSE R1
RnBoundary(m, b) == RSqrt(RMul(RnTheory(m, b), RnTheory(m, b - 1)))
MuOf(b) == CASE b \in {0, -1} -> -2 [] b \in -6..-2 -> -b - 3
B1Theory(N, mu) ==
    CASE mu = 2  -> RDiv(RMul(I(N), I(N + 1)), I(6))
      [] mu = 1  -> Q(N, 2)
      [] mu = 0  -> RDiv(RMul(I(N), RLn(I(N))), RMul(I(2 * (N - 1)), Ln2))
      [] mu = -1 -> R1
      [] mu = -2 -> RDiv(RMul(I(N + 1), I(N - 1)), RMul(Q(3, 2), RMul(I(N), I(N - 1))))
      [] OTHER   -> RDiv(RMul(I(N), RSub(R1, RPow(I(N), mu))), RMul(I(2 * (N - 1)), RSub(R1, RPow(I(2), mu))))
B1Boundary(b, N) == RSqrt(RMul(B1Theory(N, MuOf(b - 1)), B1Theory(N, MuOf(b))))
=============================================================================
