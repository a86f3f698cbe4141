------------------------------ MODULE MC_Noise ------------------------------
(* The pink noise machine with symbolic draws, and the constant properties  *)
(* of the Kasdin filter, the predicted levels, the spectra and syntheses.   *)
EXTENDS Noise, TLC, IOUtils, FiniteSets
L == atoi(IOEnv.MC_L)
What == IOEnv.MC_WHICH
VARIABLE q
Near(a, b, r) == RCmp(RAbs(RSub(a, b)), RMul(r, RMax(RAbs(a), RAbs(b)))) <= 0
Abs(a, b, r) == RCmp(RAbs(RSub(a, b)), r) <= 0
E20 == RDiv(R1, RPow(I(10), 20))
E4 == Q(1, 10000)

(* pink: the i-th draw is the number i; t: samples produced, at: the sample at which each row last changed *)
Orders == {<<0, 1, 2>>, <<2, 0, 1>>}
Draws(d, n) == [i \in 1..(3*d + 2*d*(n + 1)) |-> i]
PinkStart == q \in { [k |-> "pink", d |-> d, z |-> Draws(d, L), sw |-> sw, st |-> PinkInit(Draws(d, L), d, o), t |-> 0, ch |-> 0, n |-> 0]
                       : d \in 1..5, sw \in BOOLEAN, o \in Orders }
PinkStep == q.k = "pink" /\ q.t < L
    /\ LET s2 == PinkNext(q.st, q.z, q.sw)
           df == { j \in 1..q.d : s2.v[j] # q.st.v[j] }
       IN  q' = [q EXCEPT !.st = s2, !.t = @ + 1, !.ch = IF df = {} THEN 0 ELSE CHOOSE j \in df : TRUE, !.n = Cardinality(df)]
\* at most one row changes per sample; row c (from 0) exactly at indices with c trailing zeros; draws are never used twice
PinkInv == q.k = "pink" =>
    /\ q.st.i = q.t % q.d
    /\ q.t > 0 => q.n = (IF q.st.i = 0 THEN 0 ELSE 1) /\ (q.st.i # 0 => q.ch = Ctz(q.st.i) + 1 /\ q.st.i % (2 ^ q.ch) = 2 ^ (q.ch - 1))
    /\ Cardinality({q.st.v[j] : j \in 1..q.d} \cup {q.st.s[j] : j \in 1..q.d}) = 2 * q.d
    /\ q.st.k * q.d <= PinkDraws(q.t, q.d) + 2 * q.d

Bs == { R0, I(-1), I(-2), I(-3), I(-4), I(2), Q(-13, 10), Q(1, 2) }
FixStart == q \in [k : {"semi"}, b : Bs, c : Bs] \cup [k : {"filter"}, n : {3 + L}]
              \cup [k : {"level"}, b : {0, -1, -2, -3, -4}, t0 : {R1, Q(1, 4)}]
              \cup [k : {"psd"}, n : 2..(4 + L), x : [1..3 -> {-1, 0, 2}]]
              \cup [k : {"tk"}, n : 4..(5 + L), dt : {R1, Q(1, 8)}]
              \cup [k : {"par"}, a : SUBSET {"nr", "qd", "b"}]
Init == IF What = "pink" THEN PinkStart ELSE FixStart
Next == IF What = "pink" THEN PinkStep ELSE UNCHANGED q
Spec == Init /\ [][Next]_q

\* (1-z)^(b/2) (1-z)^(c/2) = (1-z)^((b+c)/2)
N == 6 + L
SemiInv == q.k = "semi" => LET hb == H(q.b, N)  hc == H(q.c, N)  hs == H(RAdd(q.b, q.c), N) IN
    \A k \in 1..N : Abs(Conv(hb, hc, k), hs[k], E20)
FilterInv == q.k = "filter" => LET n == q.n IN
    /\ \A k \in 1..n : H(R0, n)[k] = (IF k = 1 THEN R1 ELSE R0)
    /\ \A k \in 1..n : H(I(-2), n)[k] = R1 /\ H(I(-4), n)[k] = I(k)
    /\ \A k \in 1..n : H(I(2), n)[k] = (IF k = 1 THEN R1 ELSE IF k = 2 THEN I(-1) ELSE R0)
    /\ \A k \in 1..n : LET w == [i \in 1..n |-> I(i * i)] IN Conv(H(I(-2), n), w, k) = CumSum(w)[k]
\* the levels are the integrals of the stated transfer functions over the spectrum h_a f^a
AInt(b) == LET a == b + 2 IN SDiv(RMul(I(2), WInt(Sin4, I(2 - a), R0, INF)), SPow(Pi, I(a + 1)))
MInt(b) == LET a == b + 2 IN SDiv(RMul(Q(3, 2), WInt(Had6, I(4 - a), R0, INF)), SPow(Pi, I(a + 1)))
\* PVAR: 9 (2 sin^2 x - x sin 2x)^2 / (2 x^6), Simpson's rule on (0, X], X = 40, and the mean of the tail
PK(x) == LET s == RSin(x)  u == RSub(RMul(I(2), TMul(s, s)), TMul(x, RSin(RMul(I(2), x)))) IN SDiv(RMul(Q(9, 2), SMul(u, u)), RPow(x, 6))
PInt(b) == LET a == b + 2
               K == 1600
               f(k) == IF k = 0 THEN (IF a = -2 THEN I(2) ELSE R0)
                       ELSE LET x == Q(k, 40) IN SMul(SPow(x, I(a)), PK(x))
               simp == RDiv(RSumR(LAMBDA k : RMul(I(IF k \in {0, K} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2), f(k)), 0, K), I(120))
               tail == RDiv(Q(9, 4), RMul(I(3 - a), SPow(I(40), I(3 - a))))      \* mean of 9 x^2 sin^2(2x) / (2 x^6) times x^a
           IN  SDiv(RAdd(simp, tail), SPow(Pi, I(a + 1)))
LevelInv == q.k = "level" =>
    /\ q.b \in {-2, -3, -4} => Near(AvarCoef(q.b, q.t0, R1), AInt(q.b), RDiv(R1, RPow(I(10), 12)))
    /\ q.b = 0 \/ \E c \in MvarCoefs(q.b) : Near(c, MInt(q.b), Q(1, 1000000))
    /\ \A c \in MvarCoefs(q.b) : q.b = 0 \/ Near(c, MInt(q.b), Q(1, 1000))
    /\ Near(PvarCoef(q.b), PInt(q.b), Q(1, 500))
    \* white and flicker PM: the integral with the cut-off frequency of the sampling
    /\ q.b \in {0, -1} => \A m \in {20, 60} : LET tau == RMul(I(m), q.t0)  fh == RDiv(Q(1, 2), q.t0) IN
           Near(RMul(AvarCoef(q.b, q.t0, tau), RPow(tau, AvarExp(q.b))), PwAvar(<<R1, R0>>, <<I(q.b + 2), R0>>, <<fh>>, tau), Q(1, 100))
    /\ \A b \in {q.b} : PhaseLevel(I(3), I(b), q.t0) = SDiv(FreqLevel(I(3), I(b), q.t0), SMul(TwoPi, TwoPi)) \/
                        Near(RMul(PhaseLevel(I(3), I(b), q.t0), SMul(TwoPi, TwoPi)), FreqLevel(I(3), I(b), q.t0), E20)
\* white noise of variance qd sampled at 1/t0 has one-sided level 2 qd t0
WhiteInv == q.k = "level" /\ q.b = 0 => Near(PhaseLevel(I(3), R0, q.t0), RMul(I(6), q.t0), E20) /\ Near(RSq(WhiteAmp(PhaseLevel(I(3), R0, q.t0), RDiv(R1, q.t0))), I(3), E20)
\* Parseval: one-sided spectrum (ends halved) times the frequency step is the mean square
PsdInv == q.k = "psd" =>
    LET n == q.n  x == [i \in 1..n |-> I(q.x[(i % 3) + 1] + (IF i = n THEN 1 ELSE 0))]  tab == Trig(n)  fs == I(3)
        w(k) == IF k = 0 \/ 2*k = n THEN Q(1, 2) ELSE R1
    IN  Abs(RMul(RDiv(fs, I(n)), RSumR(LAMBDA k : RMul(w(k), PsdAt(x, k, fs, tab)), 0, n \div 2)), RDiv(RSumR(LAMBDA i : RSq(x[i]), 1, n), I(n)), E20)
\* the averaged spectrum sums to the weighted mean square of the segments; one segment of the whole series; a constant has none
WelchInv == q.k = "psd" =>
    LET n == q.n  x == [i \in 1..n |-> I(q.x[(i % 3) + 1] + (IF i = n THEN 1 ELSE 0))]  fs == I(3) IN
    \A seg \in 1..2 : LET np == n \div seg  h == np \div 2  tab == Trig(np)  w == Hann(np, tab)  S == WelchSegs(n, np)
                           W2 == RSumR(LAMBDA j : RSq(w[j]), 1, np)
                           en(o) == LET mu == RDiv(RSumR(LAMBDA j : x[o + j], 1, np), I(np)) IN
                                    RSumR(LAMBDA j : RSq(RMul(w[j], RSub(x[o + j], mu))), 1, np)
                       IN  /\ (seg = 1 => S = 1) /\ (S - 1) * (np - h) + np <= n /\ S * (np - h) + np > n
                           /\ Abs(RMul(RDiv(fs, I(np)), RSumR(LAMBDA k : WelchAt(x, np, fs, k, tab), 0, np \div 2)),
                                  RDiv(RSumR(LAMBDA s : en(s * (np - h)), 0, S - 1), RMul(I(S), W2)), E20)
                           /\ \A k \in 0..(np \div 2) : Abs(WelchAt([i \in 1..n |-> I(5)], np, fs, k, tab), R0, E20)
\* the synthesis has exactly the amplitudes as its transform and no mean
TkInv == q.k = "tk" =>
    LET n == q.n  tab == Trig(n)  hf == n \div 2
        re == [j \in 1..hf |-> I(j*j - 3)]  im == [j \in 1..hf |-> I(2 - j)]
        amp == TkAmp(<<R1, I(5)>>, <<R0, I(-1)>>, <<RDiv(Q(1, 4), q.dt)>>, n, q.dt, re, im)
        x == [t \in 1..n |-> TkAt(amp, n, t - 1, tab)]
        D(k) == Dft(x, k, tab)
    IN  /\ \A k \in 1..((n - 1) \div 2) : Abs(D(k)[1], RMul(I(n), amp[k].a), E20) /\ Abs(D(k)[2], RMul(I(n), amp[k].b), E20)
        /\ Abs(D(0)[1], R0, E20)
        /\ n % 2 = 0 => Abs(D(hf)[1], RMul(I(n), amp[hf].a), E20)
        /\ TkFreq(n, q.dt, hf) = RDiv(Q(1, 2), q.dt) /\ TkFreq(n, q.dt, 0) = RDiv(R1, RMul(I(n - 1), q.dt))
        /\ \A j \in 1..hf : Seg(<<TkFreq(n, q.dt, j)>>, TkFreq(n, q.dt, j)) = 2 /\ Seg(<<>>, TkFreq(n, q.dt, j)) = 1
ParInv == q.k = "par" => LET p == Params([f \in q.a |-> 7]) IN \A f \in {"nr", "qd", "b"} : p[f] = (IF f \in q.a THEN 7 ELSE Defaults[f])
=============================================================================
