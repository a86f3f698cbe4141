-------------------------------- MODULE Psd ---------------------------------
(***************************************************************************)
(* Power spectra and Allan variances (NIST SP1065 eqs 65, 66):             *)
(*   AVAR(tau) = 2 int_0^inf S(f) sin^4(x)/x^2 df,  x = pi f tau           *)
(*   MVAR(tau) = 2 int_0^inf S(f) sin^6(x)/x^4 df (continuous limit)       *)
(* for power laws in closed form, and by Simpson's rule on a grid.         *)
(***************************************************************************)
EXTENDS Elem, TLC
TPow(x, y) == SPow(x, y)

(****************** int sin^4(z) z^-p dz  and  sin^6 ***********************)
\* sin^4 z = 3/8 - cos(2z)/2 + cos(4z)/8;  (4/3) sin^6 z = 5/12 - 5/8 cos 2z + 1/4 cos 4z - 1/24 cos 6z
Sin4 == [mean |-> Q(3, 8), c |-> <<Q(-1, 2), Q(1, 8)>>, first |-> 2]
Had6 == [mean |-> Q(5, 12), c |-> <<Q(-5, 8), Q(1, 4), Q(-1, 24)>>, first |-> 3]

\* Low(w, p, z) = int_0^z, by the power series (p < 5 for Sin4, p < 7 for Had6), z <= 20
\* term k of cos(2 n z): (-1)^k (2n)^(2k) z^(2k) / (2k)!
\* evaluated tuples
Tup(nc, f(_)) == IF nc = 2 THEN <<f(1), f(2)>> ELSE <<f(1), f(2), f(3)>>
RECURSIVE LowSer(_, _, _, _, _, _)
LowSer(w, p, z2, k, t, acc) ==
    \* t[n] = (-1)^k (2 n z)^(2k)/(2k)!
    LET nc  == Len(w.c)
        cof == RSumR(LAMBDA n : SMul(w.c[n], t[n]), 1, nc)
        a2  == IF k < w.first THEN acc ELSE RAdd(acc, SDiv(cof, RSub(I(2*k + 1), p)))
        nx  == Tup(nc, LAMBDA n : RNeg(SDiv(SMul(t[n], RMul(I(4*n*n), z2)), I((2*k + 1) * (2*k + 2)))))
        big == RMaxR(LAMBDA n : RAbs(nx[n]), 1, nc)
    IN  IF k >= w.first /\ RCmp(big, RMul(RAbs(a2), RDiv(R1, RPow(I(10), 26)))) <= 0 THEN a2 ELSE LowSer(w, p, z2, k + 1, nx, a2)
Low(w, p, z) == IF RSgn(z) = 0 THEN R0
                ELSE SMul(TPow(z, RSub(R1, p)), LowSer(w, p, SMul(z, z), 0, Tup(Len(w.c), LAMBDA n : R1), R0))
\* int_z^inf cos(a t) t^-p dt, asymptotic series
RECURSIVE OscSer(_, _, _, _, _, _, _)
OscSer(p, az, s, c, k, t, acc) ==
    \* t = (p)_k / (az)^k;  the k-th factor cycles -sin, cos, sin, -cos
    LET f  == CASE k % 4 = 0 -> RNeg(s) [] k % 4 = 1 -> c [] k % 4 = 2 -> s [] k % 4 = 3 -> RNeg(c)
        nx == SDiv(SMul(t, RAdd(p, I(k))), az)
        a2 == RAdd(acc, SMul(t, f))
    IN  IF RCmp(RAbs(nx), RAbs(t)) >= 0 \/ k > 40 THEN a2 ELSE OscSer(p, az, s, c, k + 1, nx, a2)
Osc(a, p, z) == LET az == RMul(I(a), z) IN
    SDiv(SMul(TPow(z, RNeg(p)), OscSer(p, az, RSin(az), RCos(az), 0, R1, R0)), I(a))
OscAll(w, p, z) == RSumR(LAMBDA n : SMul(w.c[n], Osc(2*n, p, z)), 1, Len(w.c))
MeanInt(w, p, a, b) == SMul(w.mean, IF p = R1 THEN RLn(RDiv(b, a))
                                    ELSE SDiv(RSub(TPow(b, RSub(R1, p)), TPow(a, RSub(R1, p))), RSub(R1, p)))
Z0 == I(20)
Far(w, p, a, b) == RAdd(MeanInt(w, p, a, b), RSub(OscAll(w, p, a), OscAll(w, p, b)))
FarInf(w, p, a) == RAdd(SMul(w.mean, SDiv(TPow(a, RSub(R1, p)), RSub(p, R1))), OscAll(w, p, a))    \* p > 1
INF == <<"inf">>
\* int_a^b, b may be INF
WInt(w, p, a, b) ==
    IF b = INF THEN IF RCmp(a, Z0) >= 0 THEN FarInf(w, p, a)
                    ELSE RAdd(RSub(Low(w, p, Z0), Low(w, p, a)), FarInf(w, p, Z0))
    ELSE IF RCmp(b, Z0) <= 0 THEN RSub(Low(w, p, b), Low(w, p, a))
    ELSE IF RCmp(a, Z0) >= 0 THEN Far(w, p, a, b)
    ELSE RAdd(RSub(Low(w, p, Z0), Low(w, p, a)), Far(w, p, Z0, b))
\* closed form of int_0^inf with s = p
Gam(s) == RExp(LnGamma(s))
Closed(w, s) ==
    LET br == RSumR(LAMBDA n : SMul(w.c[n], TPow(I(2*n), RSub(s, R1))), 1, Len(w.c))
        cs == RCos(SMul(SDiv(s, I(2)), Pi))
    IN  SDiv(SMul(SMul(br, Pi), Q(1, 2)), SMul(Gam(s), cs))

\* J(mu) of adev2psd: -2 < mu < 2 (adev), < 4 (hdev)
JMu(w, mu) == WInt(w, RAdd(I(3), mu), R0, INF)

(*********************** piecewise power-law spectra ***********************)
\* h, al: sequences; nodes: ascending sequence, one shorter
Edge(nodes, i) == IF i = 0 THEN R0 ELSE IF i > Len(nodes) THEN INF ELSE nodes[i]
PwAvar(h, al, nodes, tau) ==
    LET pt == SMul(Pi, tau) IN
    RMul(I(2), RSumR(LAMBDA i :
        LET e0 == Edge(nodes, i - 1)  e1 == Edge(nodes, i)
        IN  SMul(SMul(h[i], TPow(pt, RNeg(RAdd(al[i], R1)))),
                 WInt(Sin4, RSub(I(2), al[i]), RMul(pt, e0), IF e1 = INF THEN INF ELSE RMul(pt, e1))), 1, Len(h)))

\* local slopes and the points kept when equal slopes (within tol) are merged
MuAt(a, t, i) == SDiv(RMul(I(2), RLn(RDiv(a[i+1], a[i]))), RLn(RDiv(t[i+1], t[i])))
RECURSIVE Merge(_, _, _, _, _)
Merge(a, t, tol, i, acc) ==              \* acc: sequence of [mu, a, t] (right end point of the segment's first step)
    IF i >= Len(a) THEN acc
    ELSE LET mu == MuAt(a, t, i) IN
         IF Len(acc) > 0 /\ RCmp(RAbs(RSub(mu, acc[Len(acc)].mu)), tol) <= 0 THEN Merge(a, t, tol, i + 1, acc)
         ELSE Merge(a, t, tol, i + 1, Append(acc, [mu |-> mu, a |-> a[i+1], t |-> t[i+1]]))
Segments(a, t, tol) == Merge(a, t, tol, 1, <<>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* coefficient of the segment's spectrum h f^(-mu-1)
Coef(w, s) == SDiv(SDiv(SMul(RMul(s.a, s.a), TPow(s.t, RNeg(s.mu))), SMul(I(2), TPow(Pi, s.mu))), JMu(w, s.mu))

(******************************* psd2allan *********************************)
\* coefficients c[1] + c[2] u + c[3] u^2 + c[4] u^3 at u = k/4 (k-th point of the fine grid)
Poly(c, u) == RAdd(c[1], RMul(u, RAdd(c[2], RMul(u, RAdd(c[3], RMul(u, c[4]))))))
\* the cubic spline through S at 0..n-1 whose third derivative does not jump at the second and the last but one point
\* (n >= 4): second derivatives, tridiagonal system 1, 4, 1
D2(S, i) == RAdd(RSub(S[i+1], RMul(I(2), S[i])), S[i-1])
RECURSIVE FwdCp(_, _, _)                       \* cp of the elimination
FwdCp(i, hi, acc) == IF i > hi THEN acc ELSE FwdCp(i + 1, hi, Append(acc, SDiv(R1, RSub(I(4), IF acc = <<>> THEN R0 ELSE acc[Len(acc)]))))
RECURSIVE FwdDp(_, _, _, _, _)
FwdDp(r, cp, i, hi, acc) == IF i > hi THEN acc ELSE FwdDp(r, cp, i + 1, hi, Append(acc, SMul(RSub(r[i], IF acc = <<>> THEN R0 ELSE acc[Len(acc)]), cp[i])))
RECURSIVE Back(_, _, _, _)
Back(dp, cp, i, acc) == IF i < 1 THEN acc ELSE Back(dp, cp, i - 1, <<RSub(dp[i], IF acc = <<>> THEN R0 ELSE SMul(cp[i], acc[1]))>> \o acc)
Curv(S) ==
    LET n == Len(S)
        a == D2(S, 2)  b == D2(S, n - 1)               \* at points 2 and n-1 (counted from 1)
        k == n - 4                                     \* points 3..n-2
        r == TLCEval([i \in 1..k |-> RSub(RMul(I(6), D2(S, i + 2)), RAdd(IF i = 1 THEN a ELSE R0, IF i = k THEN b ELSE R0))])
        cp == FwdCp(1, k, <<>>)
        in == Back(FwdDp(r, cp, 1, k, <<>>), cp, k, <<>>)
        all == <<a>> \o in \o <<b>>
    IN  <<RSub(RMul(I(2), a), all[2])>> \o all \o <<RSub(RMul(I(2), b), all[Len(all) - 1])>>
\* the spline on the quarter grid
SplineAt(S, c, k) ==
    LET i == Min2(k \div 4, Len(S) - 2) + 1  u == Q(k - 4 * (i - 1), 4)  v == RSub(R1, u) IN
    RAdd(RAdd(RMul(v, S[i]), RMul(u, S[i+1])),
         RDiv(RAdd(RMul(RSub(RPow(v, 3), v), c[i]), RMul(RSub(RPow(u, 3), u), c[i+1])), I(6)))
Fine(S) == LET c == TLCEval(Curv(S)) IN TLCEval([k \in 1..(4 * (Len(S) - 1) + 1) |-> SplineAt(S, c, k - 1)])

\* twice the Simpson integral over k = 0..4(N-1), spacing df/4, at factor m: x_k = pi m k / (4 (N-1))
P2AOf(G(_), N, df, m, kind) ==
    LET K == 4 * (N - 1)
        x(k) == SMul(Pi, Q(m * k, K))
        g(k) == IF k = 0 THEN R0
                ELSE LET s == RSin(x(k))  s2 == SMul(s, s)  x2 == SMul(x(k), x(k))  s4 == SMul(s2, s2)
                     IN  SMul(G(k), IF kind = "adev" THEN SDiv(s4, x2) ELSE SDiv(SMul(s4, s2), SMul(x2, x2)))
        w(k) == IF k \in {0, K} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2
    IN  RMul(RMul(I(2), RDiv(df, I(12))), RSumR(LAMBDA k : RMul(I(w(k)), g(k)), 0, K))
P2A(c, N, df, m, kind) == P2AOf(LAMBDA k : Poly(c, Q(k, 4)), N, df, m, kind)
P2AS(fine, N, df, m, kind) == P2AOf(LAMBDA k : fine[k + 1], N, df, m, kind)
=============================================================================
