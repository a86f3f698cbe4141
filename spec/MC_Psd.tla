------------------------------ MODULE MC_Psd --------------------------------
(* Consistency of the transfer-function integrals: closed form, power       *)
(* series, asymptotic series, additivity, merging and scaling laws.         *)
EXTENDS Psd, TLC, IOUtils
L == atoi(IOEnv.MC_L)
VARIABLE q
Near(a, b, r) == RCmp(RAbs(RSub(a, b)), RMul(r, RMax(RAbs(a), RAbs(b)))) <= 0
E8 == Q(1, 100000000)
E7 == Q(1, 10000000)
Init == q \in [k : {"closed"}, p : {Q(i, 10) : i \in {12, 15, 19, 25, 31, 38, 44, 48}}]
         \cup [k : {"add"}, p : {Q(3, 2), I(3), R0, R1, Q(-1, 2), Q(24, 10)}, a : {R0, Q(1, 10), I(3)}, b : {I(4), I(12), I(40)}, n : 0..L]
         \cup [k : {"j"}, n : {1}]
         \cup [k : {"pw"}, al : {Q(-5, 2), I(-1), Q(1, 2)}, be : {I(-2), R0}, tau : {Q(1, 3), I(7)}]
         \cup [k : {"merge"}, m1 : {-1, 0, 1}, m2 : {-1, 0, 1}, m3 : {-1, 0, 1}]
         \cup [k : {"p2a"}, N : 4..(4 + L), m : 1..2, d : 0..1, e : {"adev", "mdev"}]
         \cup [k : {"spline"}, n : 4..(6 + L), y : [1..3 -> {-1, 0, 2}]]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
\* the series representation agrees with the closed form on [0, inf)
ClosedOk == q.k = "closed" =>
    /\ RCmp(q.p, R1) <= 0 \/ RCmp(q.p, Q(49, 10)) > 0 \/ q.p = I(3) \/ Near(WInt(Sin4, q.p, R0, INF), Closed(Sin4, q.p), E8)
    /\ RCmp(q.p, R1) <= 0 \/ RCmp(q.p, Q(69, 10)) > 0 \/ q.p \in {I(3), I(5)} \/ Near(WInt(Had6, q.p, R0, INF), Closed(Had6, q.p), E8)
\* additive over the interval, across the switch between the two series
AddOk == q.k = "add" =>
    LET c == RAdd(q.b, I(1 + q.n)) IN
    Near(RAdd(WInt(Sin4, q.p, q.a, q.b), WInt(Sin4, q.p, q.b, c)), WInt(Sin4, q.p, q.a, c), E7)
\* textbook values: white FM pi/4, flicker FM ln 2, random walk FM pi/3
JOk == q.k = "j" => Near(JMu(Sin4, I(-1)), RDiv(Pi, I(4)), E8) /\ Near(JMu(Sin4, R0), Ln2, E8) /\ Near(JMu(Sin4, R1), RDiv(Pi, I(3)), E8)
\* splitting a segment and rescaling the axes
PwOk == q.k = "pw" =>
    LET one == PwAvar(<<R1, I(2)>>, <<q.al, q.be>>, <<Q(3, 10)>>, q.tau)
        two == PwAvar(<<R1, R1, I(2), I(2)>>, <<q.al, q.al, q.be, q.be>>, <<Q(1, 10), Q(3, 10), I(2)>>, q.tau)
        \* S'(f) = 5 S(5 f) at tau/5... deviation(tau) -> deviation(tau * 1/5)
        sc(h, a) == RMul(h, TPow(I(5), RAdd(R1, a)))
        scl == PwAvar(<<sc(R1, q.al), sc(I(2), q.be)>>, <<q.al, q.be>>, <<Q(3, 50)>>, RMul(I(5), q.tau))
    IN  Near(one, two, E7) /\ Near(one, scl, E7) /\ RSgn(one) > 0
\* merging: the deviation of the merged segments passes through the kept points
MergeOk == q.k = "merge" =>
    LET tt == [i \in 1..4 |-> RPow(I(4), i)]
        lg == <<0, q.m1, q.m1 + q.m2, q.m1 + q.m2 + q.m3>>
        aa == [i \in 1..4 |-> RPow(I(2), lg[i])]
        s  == Segments(aa, tt, Q(1, 1000))
        ms == <<q.m1, q.m2, q.m3>>
    IN  /\ Len(s) = 1 + (IF q.m2 # q.m1 THEN 1 ELSE 0) + (IF q.m3 # q.m2 THEN 1 ELSE 0)
        /\ \A i \in 1..Len(s) : \E k \in 1..3 : Near(RAdd(I(9), s[i].mu), I(9 + ms[k]), E8)
        /\ \A i \in 1..(Len(s)-1) : RCmp(s[i].t, s[i+1].t) < 0
\* the discrete sum approximates the continuous integral of white FM: 2 int_0^fmax sin^4 x / x^2 df
P2AOk == q.k = "p2a" =>
    LET c == IF q.d = 0 THEN <<R1, R0, R0, R0>> ELSE <<R0, R1, R0, R0>>
        fm == I(q.N - 1)
        v == P2A(c, q.N, R1, q.m, q.e)
        \* x = pi f m / (N-1)
        sc == RDiv(RMul(Pi, I(q.m)), fm)
        w == RDiv(RMul(I(2), IF q.d = 0 THEN WInt(Sin4, I(2), R0, RMul(Pi, I(q.m))) ELSE RDiv(WInt(Sin4, R1, R0, RMul(Pi, I(q.m))), sc)), sc)
    IN  RSgn(v) > 0 /\ (q.e = "adev" => Near(v, w, Q(1, 50)))
\* the spline: interpolates, commutes with reversal, smooth (slopes agree at the points), third derivative continuous at the
\* second and last but one point, reproduces cubics
E18 == RDiv(R1, RPow(I(10), 18))
Close(a, b) == RCmp(RAbs(RSub(a, b)), E18) <= 0
SplineOk == q.k = "spline" =>
    LET n == q.n  S == [i \in 1..n |-> I(q.y[(i % 3) + 1] + (IF i = 2 THEN 3 ELSE 0))]
        R == [i \in 1..n |-> S[n + 1 - i]]
        c == Curv(S)  f == Fine(S)  g == Fine(R)  K == 4 * (n - 1)
        left(i)  == RAdd(RSub(S[i], S[i-1]), RDiv(RAdd(c[i-1], RMul(I(2), c[i])), I(6)))           \* slope at point i from the left
        right(i) == RSub(RSub(S[i+1], S[i]), RDiv(RAdd(RMul(I(2), c[i]), c[i+1]), I(6)))
        P == <<I(q.y[1]), I(q.y[2]), I(q.y[3]), Q(1, 2)>>
        h == Fine([i \in 1..n |-> Poly(P, I(i - 1))])
    IN  /\ Len(c) = n
        /\ \A i \in 1..n : f[4*i - 3] = S[i]
        /\ \A k \in 1..(K + 1) : Close(f[k], g[K + 2 - k]) /\ Close(h[k], Poly(P, Q(k - 1, 4)))
        /\ \A i \in 2..(n-1) : Close(left(i), right(i))
        /\ Close(RSub(c[2], c[1]), RSub(c[3], c[2])) /\ Close(RSub(c[n], c[n-1]), RSub(c[n-1], c[n-2]))
=============================================================================
