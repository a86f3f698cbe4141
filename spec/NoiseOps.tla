------------------------------ MODULE NoiseOps ------------------------------
(* Verdicts on recorded calls of the noise generators; z: the standard      *)
(* normal draws numpy yields after the same seed.                           *)
EXTENDS Approx, Noise
Clause(ok, name) == IF ok THEN {} ELSE {name}
Exc(o) == {"exc:" \o o.exc}
AllNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
E13 == RDiv(R1, RPow(I(10), 13))
RepClauses(o) == Clause(o.again = o.x, "reproducible")
Scaled(x, y, amp) == \A i \in 1..Len(x) : Near(x[i], RMul(amp, y[i]), Eps9, R0)
ScaledAbs(x, y, amp) == LET M == RMul(Eps11, RMul(RAbs(amp), MaxAbs(y))) IN \A i \in 1..Len(x) : Near(x[i], RMul(amp, y[i]), R0, M)
ColourVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.x) # e.n \/ ~AllNum(o.x) THEN {"length"}
    ELSE RepClauses(o) \cup
         (CASE e.fn = "white"  -> Clause(Scaled(o.x, e.z, WhiteAmp(e.b, e.fs)), "white")
            [] e.fn = "brown"  -> Clause(LET c == CumSum(e.z) IN ScaledAbs(o.x, c, BrownAmp(e.b, e.fs)), "brown")
            [] e.fn = "violet" -> Clause(LET d == [i \in 1..e.n |-> RSub(e.z[i+1], e.z[i])] IN ScaledAbs(o.x, d, VioletAmp(e.b, e.fs)), "violet"))

(********************************** pink ***********************************)
RECURSIVE PinkOk(_, _, _, _, _, _)
PinkOk(st, sum, z, sw, x, i) ==
    IF i > Len(x) THEN TRUE
    ELSE /\ Near(x[i], RAdd(sum, st.s[st.i + 1]), R0, RDiv(Eps9, I(1000)))
         /\ (i = Len(x) \/ LET n == PinkNext(st, z, sw)
                               r == Ctz(st.i + 1) + 1 IN
                           PinkOk(n, IF n.i = 0 THEN sum ELSE RAdd(sum, RSub(n.v[r], st.v[r])), z, sw, x, i + 1))
Perms == {<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>}
PinkVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.x) # e.n \/ ~AllNum(o.x) THEN {"length"}
    ELSE RepClauses(o) \cup
         Clause(\E p \in Perms, sw \in BOOLEAN : LET st == PinkInit(e.z, e.d, p) IN PinkOk(st, PinkSum(st), e.z, sw, o.x, 1), "pink")

(****************************** periodogram ********************************)
PeriodVerdict(e) ==
    LET o == e.out  n == Len(e.x)  tab == Trig(n)
        S == RSumR(LAMBDA i : RAbs(e.x[i]), 1, n)
        ab == RMul(Eps12, RMul(RDiv(I(2), RMul(I(n), e.fs)), RSq(S)))
    IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.f) # (n \div 2) + 1 \/ Len(o.p) # Len(o.f) \/ ~AllNum(o.f) \/ ~AllNum(o.p) THEN {"shape"}
    ELSE Clause(\A k \in 1..Len(o.f) : Near(o.f[k], RDiv(RMul(I(k - 1), e.fs), I(n)), Eps12, R0), "axis")
         \cup Clause(\A j \in 1..Len(e.ks) : LET k == e.ks[j]  v == PsdAt(e.x, k, e.fs, tab) IN
                       Near(o.p[k+1], v, Eps9, ab) \/ ((k = 0 \/ 2*k = n) /\ Near(o.p[k+1], RDiv(v, I(2)), Eps9, ab)), "psd")

\* the averaged spectrum; np points per segment
WelchVerdict(e) ==
    LET o == e.out  n == Len(e.x)  np == n \div e.seg  tab == TLCEval(Trig(np))
        S == RSumR(LAMBDA i : RAbs(e.x[i]), 1, n)
        ab == RMul(Eps12, RMul(RDiv(I(4), RMul(I(np), e.fs)), RSq(S)))
    IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.f) # (np \div 2) + 1 \/ Len(o.p) # Len(o.f) \/ ~AllNum(o.f) \/ ~AllNum(o.p) THEN {"shape"}
    ELSE Clause(\A k \in 1..Len(o.f) : Near(o.f[k], RDiv(RMul(I(k - 1), e.fs), I(np)), Eps12, R0), "axis")
         \cup Clause(\A j \in 1..Len(e.ks) : Near(o.p[e.ks[j]+1], WelchAt(e.x, np, e.fs, e.ks[j], tab), Eps9, ab), "psd")

(***************************** Timmer-Koenig *******************************)
\* order of the 2*(n div 2) draws
Re(z, m, ord) == [j \in 1..m |-> CASE ord = 1 -> z[2*j - 1] [] ord = 2 -> z[2*j] [] ord = 3 -> z[j] [] ord = 4 -> z[m + j]]
Im(z, m, ord) == [j \in 1..m |-> CASE ord = 1 -> z[2*j] [] ord = 2 -> z[2*j - 1] [] ord = 3 -> z[m + j] [] ord = 4 -> z[j]]
TkOk(e, ord, tab, gain) ==
    LET n == e.n  m == n \div 2
        re == Re(e.z, m, ord)  im == Im(e.z, m, ord)
        amp == TLCEval([j \in 1..m |-> [a |-> SMul(gain[j], re[j]), b |-> SMul(gain[j], im[j])]])
        sc == TkScale(n, e.dt)
        tol == RMul(Eps11, RMul(I(2), RSumR(LAMBDA j : RAdd(RAbs(amp[j].a), RAbs(amp[j].b)), 1, m)))
        x == e.out.x
        ph(t) == RMul(sc, TkAt(amp, n, t, tab))
    IN  IF e.output = "phase" THEN \A i \in 1..Len(e.ts) : Near(x[e.ts[i] + 1], ph(e.ts[i]), R0, RMul(sc, tol))
        ELSE \A i \in 1..Len(e.ts) : LET t == e.ts[i] IN
             IF t = 0 THEN x[1] = R0 ELSE Near(x[t + 1], RDiv(RSub(ph(t), ph(t - 1)), e.dt), R0, RDiv(RMul(I(2), RMul(sc, tol)), e.dt))
TkVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.x) # e.n \/ ~AllNum(o.x) THEN {"length"}
    ELSE RepClauses(o) \cup Clause(LET tab == TLCEval(Trig(e.n))  gain == TLCEval(TkGain(e.h, e.al, e.nodes, e.n, e.dt))
                                       IN  \E ord \in 1..4 : TkOk(e, ord, tab, gain), "synthesis")

(********************************* Kasdin **********************************)
\* object: parameters, and the samples expected after the last generateNoise (none if parameters were set since)
NewNoise(a) == [p |-> Params(a), gen |-> FALSE, z |-> <<>>, gp |-> Params(a)]
KStep(objs, s) ==
    CASE s.act = "new" -> [objs EXCEPT ![s.id] = NewNoise(s.args)]
      [] s.act = "set" -> [objs EXCEPT ![s.id].p = Params(s.args), ![s.id].gen = FALSE]
      [] s.act = "gen" -> [objs EXCEPT ![s.id].gen = TRUE, ![s.id].z = s.z]
      [] OTHER -> objs
SeriesOk(o, ts, ks) ==
    LET n == o.p.nr
        h == H(o.p.b, n)
        a == SSqrt(o.p.qd)
        mw == MaxAbs(o.z)
        tol == RMul(RMul(E13, RMul(a, mw)), RAdd(I(10), RSumR(LAMBDA j : RAbs(h[j]), 1, n)))
    IN  \A i \in 1..Len(ks) : Near(ts[ks[i]], RMul(a, Conv(h, o.z, ks[i])), R0, tol)
ObsVerdict(o, b) ==
    IF ~b.ok THEN Exc(b)
    ELSE Clause(b.nr = o.p.nr /\ b.qd = o.p.qd /\ b.b = o.p.b, "parameters")
         \cup (IF ~o.gen THEN {}
               ELSE IF Len(b.ts) # o.p.nr \/ ~AllNum(b.ts) THEN {"length"}
               ELSE Clause(SeriesOk(o, b.ts, b.ks), "filter"))
\* predictions
LevelVerdict(o, s) ==
    LET p == o.p  v == s.v  b == RToInt(p.b)
        fa == FreqLevel(p.qd, p.b, s.tau0)
        sq(c) == SqrtNearN(v, RMul(c, fa), Eps9, R0)
    IN  IF Len(v) = 1 /\ v[1] # "nan" THEN {"theory:" \o v[1]}
        ELSE Clause(CASE s.fn = "phase_psd_from_qd" -> NearN(v, PhaseLevel(p.qd, p.b, s.tau0), Eps9, R0)
               [] s.fn = "frequency_psd_from_qd" -> NearN(v, fa, Eps9, R0)
               [] s.fn = "c_avar" -> NearN(v, I(AvarExp(b)), R0, R0)
               [] s.fn = "c_mvar" -> NearN(v, I(MvarExp(b)), R0, R0)
               [] s.fn = "adev_from_qd" -> sq(AvarCoef(b, s.tau0, s.tau))
               [] s.fn = "mdev_from_qd" -> \E c \in MvarCoefs(b) : sq(c)
               [] s.fn = "pdev_from_qd" -> sq(PvarCoef(b))
               [] s.fn = "adev" -> sq(RMul(AvarCoef(b, s.tau0, s.tau), RPow(s.tau, AvarExp(b))))
               [] s.fn = "mdev" -> \E c \in MvarCoefs(b) : sq(RMul(c, RPow(s.tau, MvarExp(b)))), "theory " \o s.fn)
KVerdict(os, s) ==
    UNION { ObsVerdict(os[b.id], b) : b \in { s.out[j] : j \in 1..Len(s.out) } }
    \cup (IF s.act = "theory" THEN LevelVerdict(os[s.id], [fn |-> s.fn, tau0 |-> s.tau0, tau |-> s.tau, v |-> s.out[1].v]) ELSE {})
=============================================================================
