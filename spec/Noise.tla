------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Coloured noise as functions of the stream z of standard normal draws.   *)
(*  - white, brown, violet: scaled draws, their sums, their differences    *)
(*  - pink: Voss-McCartney, a machine with depth rows                      *)
(*  - Kasdin: causal convolution with h_k of (1 - z)^(b/2), and the levels *)
(*    of its spectra and Allan variances                                   *)
(*  - Timmer-Koenig: inverse transform of Gaussian amplitudes              *)
(***************************************************************************)
EXTENDS Psd, TLC
SSqrt(x) == IF RSgn(x) = 0 THEN R0 ELSE SPow(x, Q(1, 2))

(******************************** scaled draws *****************************)
WhiteAmp(b0, fs)  == SSqrt(RMul(b0, RDiv(fs, I(2))))
BrownAmp(b, fs)   == RDiv(SMul(RMul(I(2), Pi), WhiteAmp(b, fs)), fs)
VioletAmp(b, fs)  == RMul(fs, SDiv(WhiteAmp(b, fs), RMul(I(2), Pi)))
CumSum(z) == Tail(RScan(z))

(********************************* pink ************************************)
\* v: rows, s: white part of this period, q: draws for this period, i: index in the period, p: draws used,
\* sum: sum of the rows
RECURSIVE Ctz(_)
Ctz(i) == IF i % 2 = 1 THEN 0 ELSE 1 + Ctz(i \div 2)
Chunk(z, k, d) == SubSeq(z, k*d + 1, (k+1)*d)                    \* k-th block of d draws
\* o: positions (0..2) of rows, white part, source among the first three blocks; sw: later blocks in order source, white
PinkInit(z, d, o) == [d |-> d, v |-> Chunk(z, o[1], d), s |-> Chunk(z, o[2], d), q |-> Chunk(z, o[3], d), i |-> 0, k |-> 3]
PinkNext(st, z, sw) ==
    IF st.i + 1 = st.d
    THEN [st EXCEPT !.i = 0, !.k = @ + 2, !.s = Chunk(z, st.k + (IF sw THEN 1 ELSE 0), st.d), !.q = Chunk(z, st.k + (IF sw THEN 0 ELSE 1), st.d)]
    ELSE [st EXCEPT !.i = @ + 1, !.v[Ctz(st.i + 1) + 1] = st.q[st.i + 2]]
PinkSum(st) == RSumR(LAMBDA j : st.v[j], 1, st.d)
\* draws needed for n values
PinkDraws(n, d) == 3*d + 2*d*(n \div d)

(********************************* Kasdin **********************************)
\* h_0 .. h_(n-1), fixed point
RECURSIVE HSeq(_, _, _, _)
HSeq(b, n, k, acc) == IF k >= n THEN acc
    ELSE HSeq(b, n, k + 1, Append(acc, IF k = 0 THEN R1 ELSE RDiv(TMul(acc[k], RSub(I(k - 1), RDiv(b, I(2)))), I(k))))
H(b, n) == HSeq(b, n, 0, <<>>)
Conv(h, w, k) == RSumR(LAMBDA j : RMul(h[j], w[k + 1 - j]), 1, k)       \* k-th sample, counted from 1

TwoPi == RMul(I(2), Pi)
PhaseLevel(qd, b, t0) == RMul(RMul(I(2), qd), SMul(SPow(TwoPi, b), SPow(t0, RAdd(b, R1))))
FreqLevel(qd, b, t0)  == RMul(RMul(I(2), qd), SMul(SPow(TwoPi, RAdd(b, I(2))), SPow(t0, RAdd(b, R1))))
EulerGamma == TDiv(RAdd(RMul(I(577215664), I(1000000000)), I(901532860)), RPow(I(10), 18))
Ln3 == RLn(I(3))
Pi2 == TMul(Pi, Pi)
\* coefficients c of the variances c h_a tau^e, b = 0..-4
AvarCoef(b, t0, tau) ==
    CASE b = 0  -> TDiv(RMul(I(3), RDiv(Q(1, 2), t0)), RMul(I(4), Pi2))
      [] b = -1 -> TDiv(RAdd(RSub(RMul(I(3), EulerGamma), Ln2), RMul(I(3), RLn(SMul(Pi, RDiv(tau, t0))))), RMul(I(4), Pi2))
      [] b = -2 -> Q(1, 2)
      [] b = -3 -> RMul(I(2), Ln2)
      [] b = -4 -> RMul(Q(2, 3), Pi2)
AvarExp(b) == CASE b = 0 -> -2 [] b = -1 -> -2 [] b = -2 -> -1 [] b = -3 -> 0 [] b = -4 -> 1
\* flicker FM: exact value and the published approximation
MvarCoefs(b) ==
    CASE b = 0  -> {TDiv(Q(3, 8), Pi2)}
      [] b = -1 -> {TDiv(RSub(RMul(I(24), Ln2), RMul(I(9), Ln3)), RMul(I(8), Pi2))}
      [] b = -2 -> {Q(1, 4)}
      [] b = -3 -> {RDiv(RSub(RMul(I(27), Ln3), RMul(I(32), Ln2)), I(8)), RMul(Q(27, 20), Ln2)}
      [] b = -4 -> {RMul(Q(11, 20), Pi2)}
MvarExp(b) == CASE b = 0 -> -3 [] b = -1 -> -2 [] b = -2 -> -1 [] b = -3 -> 0 [] b = -4 -> 1
PvarCoef(b) ==
    CASE b = 0  -> TDiv(Q(3, 2), Pi2)
      [] b = -1 -> TDiv(RMul(I(3), RSub(RMul(I(4), Ln2), R1)), RMul(I(2), Pi2))
      [] b = -2 -> Q(3, 5)
      [] b = -3 -> RDiv(RMul(I(2), RSub(I(7), RMul(I(4), Ln2))), I(5))
      [] b = -4 -> RMul(Q(26, 35), Pi2)

\* the object: parameters are replaced as a whole, omitted ones by their documented default
Defaults == [nr |-> 2, qd |-> R1, b |-> R0]
Params(a) == [k \in {"nr", "qd", "b"} |-> IF k \in DOMAIN a THEN a[k] ELSE Defaults[k]]

(****************************** trigonometry *******************************)
RECURSIVE TrigTab(_, _, _)
TrigTab(n, i, acc) == IF i >= n THEN acc
    ELSE LET x == TMul(TwoPi, Q(i, n)) IN TrigTab(n, i + 1, Append(acc, [c |-> RCos(x), s |-> RSin(x)]))
Trig(n) == TrigTab(n, 0, <<>>)                 \* entry i+1: angle 2 pi i / n
PM(a, b, m) == (a * b) % m                     \* |a b| < 2^31
\* discrete transform of x at k: <<re, im>>
Dft(x, k, tab) == LET n == Len(x) IN
    << RSumR(LAMBDA i : RMul(x[i], tab[PM(i - 1, k, n) + 1].c), 1, n), RNeg(RSumR(LAMBDA i : RMul(x[i], tab[PM(i - 1, k, n) + 1].s), 1, n)) >>
PsdAt(x, k, fs, tab) == LET d == Dft(x, k, tab) IN RMul(RDiv(I(2), RMul(I(Len(x)), fs)), RAdd(RSq(d[1]), RSq(d[2])))

(****************************** averaged PSD *******************************)
\* Welch: segments of np points, half of them shared, mean removed, periodic Hann window, one-sided density
WelchSegs(n, np) == LET h == np \div 2 IN (n - h) \div (np - h)
Hann(np, tab) == TLCEval([j \in 1..np |-> IF np = 1 THEN R1 ELSE RMul(Q(1, 2), RSub(R1, tab[j].c))])
WelchAt(x, np, fs, k, tab) ==
    LET n == Len(x)  h == np \div 2  w == Hann(np, tab)  S == WelchSegs(n, np)
        seg(q) == LET o == q * (np - h)
                      mu == RDiv(RSumR(LAMBDA j : x[o + j], 1, np), I(np))
                      y == TLCEval([j \in 1..np |-> RMul(w[j], RSub(x[o + j], mu))])
                      d == TLCEval(Dft(y, k, tab))
                  IN  RAdd(RSq(d[1]), RSq(d[2]))
        dbl == IF k = 0 \/ 2*k = np THEN 1 ELSE 2
    IN  RDiv(RMul(I(dbl), RSumR(seg, 0, S - 1)), RMul(I(S), RMul(fs, RSumR(LAMBDA j : RSq(w[j]), 1, np))))

(****************************** Timmer-Koenig ******************************)
TkFreq(n, dt, j) ==                            \* j = 0..n \div 2
    LET f1 == RDiv(R1, RMul(I(n - 1), dt))  fn == RDiv(R1, RMul(I(2), dt))
    IN  RAdd(f1, RMul(RSub(fn, f1), Q(j, n \div 2)))
\* segment of frequency f: 1 + number of nodes at or below f; a spectrum without nodes is its first segment
Seg(nodes, f) == 1 + Len(SelectSeq(nodes, LAMBDA v : RCmp(v, f) <= 0))
TkSx(h, al, nodes, f) == LET k == Seg(nodes, f)  w == SMul(TwoPi, f) IN
    SDiv(SMul(h[k], SPow(f, al[k])), SMul(w, w))
\* amplitudes: x = sum over j of 2 (a_j cos - b_j sin) (once the cosine at the Nyquist frequency)
TkGain(h, al, nodes, n, dt) == [j \in 1..(n \div 2) |-> RDiv(SSqrt(TkSx(h, al, nodes, TkFreq(n, dt, j))), I(2))]
TkAmp(h, al, nodes, n, dt, re, im) ==
    LET g == TkGain(h, al, nodes, n, dt) IN TLCEval([j \in 1..(n \div 2) |-> [a |-> SMul(g[j], re[j]), b |-> SMul(g[j], im[j])]])
TkScale(n, dt) == RDiv(SSqrt(RDiv(I(n - 1), dt)), I(n))
TkAt(amp, n, t, tab) ==                        \* t = 0..n-1, without the scale
    RSumR(LAMBDA j : LET p == tab[PM(j, t, n) + 1] IN
          IF 2*j = n THEN RMul(amp[j].a, p.c)
          ELSE RMul(I(2), RSub(RMul(amp[j].a, p.c), RMul(amp[j].b, p.s))), 1, n \div 2)
=============================================================================
