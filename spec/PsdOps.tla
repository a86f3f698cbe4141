------------------------------- MODULE PsdOps -------------------------------
(* Verdicts on recorded calls of psd2allan, adev2psd_piecewise_approx and psd_piecewise_to_adev. *)
EXTENDS Approx, Psd
Clause(ok, name) == IF ok THEN {} ELSE {name}
Exc(o) == {"exc:" \o o.exc}
AllNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
E3 == Q(1, 1000)
E4 == Q(1, 10000)

(******************************* psd2allan *********************************)
Rounds(v) == {RFloor(RAdd(v, Q(1, 2))), RNeg(RFloor(RSub(Q(1, 2), v)))}      \* two values on a tie
RECURSIVE Powers(_, _, _, _)
Powers(b, p, lim, acc) == IF RCmp(RMul(p, b), lim) > 0 THEN acc ELSE Powers(b, RMul(p, b), lim, Append(acc, p))
Up(v) == RMul(v, RAdd(R1, Eps9))
Dn(v) == RMul(v, RSub(R1, Eps9))
\* ms: sequence of integer-valued rationals
GridOk(ms, N, base) ==
    LET n == Q(N - 1, 2)
        inc == \A i \in 1..(Len(ms)-1) : RCmp(ms[i], ms[i+1]) < 0
    IN  inc /\ (\A i \in 1..Len(ms) : RCmp(ms[i], R1) >= 0) /\
        IF RCmp(base, R1) > 0
        THEN LET may  == Append(Powers(base, R1, Up(n), <<>>), n)
                 must == Append(Powers(base, R1, Dn(n), <<>>), n)
             IN  /\ \A i \in 1..Len(ms) : \E k \in 1..Len(may) : ms[i] \in Rounds(may[k])
                 /\ \A k \in 1..Len(must) : \E i \in 1..Len(ms) : ms[i] \in Rounds(must[k])
        ELSE /\ \A i \in 1..Len(ms) : ms[i] = I(i)
             /\ Len(ms) = (N - 2) \div 2 \/ (N % 2 = 1 /\ Len(ms) = (N - 1) \div 2)
P2AVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.tau) # Len(o.ad) \/ ~AllNum(o.tau) THEN {"shape"}
    ELSE LET q  == [i \in 1..Len(o.tau) |-> RMul(o.tau[i], RMul(I(e.n - 1), e.df))]
             ms == [i \in 1..Len(q) |-> RFloor(RAdd(q[i], Q(1, 2)))]
         IN  IF ~(\A i \in 1..Len(q) : Near(q[i], ms[i], Eps9, R0) /\ RCmp(ms[i], I(e.n)) < 0) THEN {"tau"}
             ELSE Clause(GridOk(ms, e.n, e.base), "grid")
                  \cup (IF e.S # <<>> THEN LET f == Fine(e.S) IN
                             Clause(\A i \in 1..Len(ms) : SqrtNearN(o.ad[i], P2AS(f, e.n, e.df, RToInt(ms[i]), e.kind), Eps6, R0), "dev")
                        ELSE IF e.c = <<>> THEN {}
                        ELSE Clause(\A i \in 1..Len(ms) : SqrtNearN(o.ad[i], P2A(e.c, e.n, e.df, RToInt(ms[i]), e.kind), Eps6, R0), "dev"))
\* the square is linear in the spectrum: out.a with S1, out.b with S2, out.s with k1 S1 + k2 S2
P2ALinVerdict(e) ==
    LET a == e.out.a  b == e.out.b  s == e.out.s IN
    IF ~(a.ok /\ b.ok /\ s.ok) THEN {"lin-exc"}
    ELSE IF ~(Len(a.ad) = Len(b.ad) /\ Len(a.ad) = Len(s.ad) /\ AllNum(a.ad) /\ AllNum(b.ad) /\ AllNum(s.ad) /\ a.tau = b.tau /\ a.tau = s.tau) THEN {"lin-shape"}
    ELSE Clause(\A i \in 1..Len(a.ad) : Near(RSq(s.ad[i]), RAdd(RMul(e.k1, RSq(a.ad[i])), RMul(e.k2, RSq(b.ad[i]))), Eps9, R0), "linear")

(************************ adev2psd_piecewise_approx ************************)
Kern(vt) == IF vt = "hdev" THEN Had6 ELSE Sin4
MuMax(vt) == IF vt = "hdev" THEN I(4) ELSE I(2)
ShapeValid(e) == /\ Len(e.a) = Len(e.t) /\ Len(e.a) >= 2
                 /\ \A i \in 1..Len(e.a) : RSgn(e.a[i]) > 0 /\ RSgn(e.t[i]) > 0
                 /\ \A i \in 1..(Len(e.t)-1) : RCmp(e.t[i], e.t[i+1]) < 0
                 /\ e.vt \in {"adev", "hdev"}
\* -1: refused, 0: no statement (slope on the limit), 1: accepted
Standing(e, segs) ==
    LET lo(k) == RAdd(segs[k].mu, I(2))  hi(k) == RSub(MuMax(e.vt), segs[k].mu) IN
    IF \E k \in 1..Len(segs) : RCmp(lo(k), RNeg(Eps9)) < 0 \/ RCmp(hi(k), RNeg(Eps9)) < 0 THEN -1
    ELSE IF \E k \in 1..Len(segs) : RCmp(lo(k), Eps9) <= 0 \/ RCmp(hi(k), Eps9) <= 0 THEN 0 ELSE 1
\* neighbouring power laws of almost the same exponent meet at an ill-conditioned frequency: no statement on it
Parallel(segs) == \E k \in 1..(Len(segs) - 1) : RCmp(RAbs(RSub(segs[k].mu, segs[k+1].mu)), Q(1, 500)) < 0
A2PVerdict(e) ==
    LET o == e.out IN
    IF ~ShapeValid(e) THEN Clause(~o.ok /\ o.exc = "ValueError", "refuse")
    ELSE LET sg == Segments(e.a, e.t, e.tol)  st == Standing(e, sg)  n == Len(sg)  rv == Rev(sg) IN
    IF st = -1 THEN Clause(~o.ok /\ o.exc = "ValueError", "refuse")
    ELSE IF ~o.ok THEN IF st = 0 THEN {} ELSE Exc(o)
    ELSE IF ~(Len(o.h) = n /\ Len(o.al) = n /\ Len(o.f) = Len(o.sy) /\ (n = 1 \/ Len(o.f) = n - 1) /\ AllNum(o.h) /\ AllNum(o.al)) THEN {"shape"}
    ELSE IF ~Parallel(sg) /\ ~(AllNum(o.f) /\ AllNum(o.sy)) THEN {"shape"}
    ELSE Clause(\A k \in 1..n : Near(o.al[k], RSub(RNeg(rv[k].mu), R1), Eps9, Eps9), "exponent")
         \cup Clause(st = 0 \/ \A k \in 1..n : Near(o.h[k], Coef(Kern(e.vt), rv[k]), Eps6, R0), "coef")
         \cup Clause(Parallel(sg) \/ \A k \in 1..Len(o.f) : RSgn(o.f[k]) > 0, "node")
         \cup (IF Parallel(sg) THEN {} ELSE IF \A k \in 1..Len(o.f) : RSgn(o.f[k]) > 0
               THEN LET at(k, j) == RMul(o.h[j], TPow(o.f[k], o.al[j])) IN
                    Clause(n = 1 \/ \A k \in 1..(n-1) : Near(at(k, k), at(k, k+1), Eps6, R0), "continuity")
                    \cup Clause(\A k \in 1..Len(o.f) : Near(o.sy[k], at(k, IF n = 1 THEN 1 ELSE k), Eps6, R0), "nodevalue")
               ELSE {})
\* deviations times c, taus times s: coefficients c^2 s^(1+al), nodes 1/s
A2PScaleVerdict(e) ==
    LET a == e.out.a  b == e.out.b IN
    IF ~a.ok \/ ~b.ok THEN {"scale-exc"}
    ELSE IF ~(Len(a.h) = Len(b.h) /\ Len(a.f) = Len(b.f) /\ AllNum(a.h) /\ AllNum(b.h) /\ AllNum(a.al) /\ AllNum(b.al) /\ AllNum(a.f) /\ AllNum(b.f) /\ Len(a.al) = Len(b.al) /\ Len(a.al) = Len(a.h)) THEN {"scale-shape"}
    ELSE Clause(\A k \in 1..Len(a.h) : Near(b.al[k], a.al[k], Eps9, Eps9), "scale-exponent")
         \cup Clause(\A k \in 1..Len(a.h) : Near(b.h[k], RMul(RMul(a.h[k], RSq(e.c)), TPow(e.s, RAdd(R1, a.al[k]))), Eps6, R0), "scale-coef")
         \cup Clause(\A k \in 1..Len(a.f) : Near(RMul(b.f[k], e.s), a.f[k], Eps6, R0), "scale-node")

(************************** psd_piecewise_to_adev **************************)
P2DVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF Len(o.dev) # Len(e.t) THEN {"shape"}
    ELSE Clause(\A i \in 1..Len(e.t) : SqrtNearN(o.dev[i], PwAvar(e.h, e.al, e.f, e.t[i]), Eps6, R0), "integral")
=============================================================================
