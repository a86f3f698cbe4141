------------------------------- MODULE LibOps -------------------------------
(***************************************************************************)
(* The remaining stateless operations: selection helpers, conversions,     *)
(* gap-resistant and cross statistics, and relations between calls.        *)
(* Each XxVerdict(e) is the set of clauses the recorded call e breaks.     *)
(***************************************************************************)
EXTENDS StatLib, Elem

Clause(ok, name) == IF ok THEN {} ELSE {name}
Exc(o) == {"exc:" \o o.exc}
Num(v) == IsNum(v)
AllNum(s) == \A i \in 1..Len(s) : Num(s[i])

(***************************** tau_generator *******************************)
IntList(s) == \A i \in 1..Len(s) : Num(s[i]) /\ RIsInt(s[i]) /\ RCmp(RAbs(s[i]), I(100000000)) < 0
TauGenVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF ~IntList(o.ms) THEN {"factors"}
    ELSE IF Len(o.ms) # Len(o.tau) THEN {"shape"}
    ELSE LET ms == [i \in 1..Len(o.ms) |-> RToInt(o.ms[i])]
             mx == IF e.max = <<"none">> THEN I(e.n) ELSE e.max
         IN  Clause(Selected(ms, e.req, e.rate, e.n, mx, e.even), "selection")
             \cup Clause(\A i \in 1..Len(ms) : NearN(o.tau[i], RDiv(I(ms[i]), e.rate), Eps12, R0), "tau")
             \cup Clause(o.same, "data")

(***************************** tau_reduction *******************************)
\* rint(n*log10 m) for m >= 1: the v with 10^(2v-1) <= m^(2n) <= 10^(2v+1)
RECURSIVE RintLog(_, _, _)
RintLog(m, n, v) == IF RCmp(RPow(I(m), 2*n), RPow(I(10), 2*v+1)) <= 0 THEN v ELSE RintLog(m, n, v+1)
RECURSIVE RintLogs(_, _, _, _)
RintLogs(ms, n, i, acc) ==
    IF i > Len(ms) THEN acc
    ELSE RintLogs(ms, n, i+1, Append(acc, RintLog(ms[i], n, IF i = 1 THEN 0 ELSE acc[i-1])))
TauRedVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF ~IntList(o.ms) THEN {"factors"}
    ELSE IF Len(o.ms) # Len(o.tau) THEN {"shape"}
    ELSE LET lg   == RintLogs(e.ms, e.n, 1, <<>>)
             keep == SelectSeq([i \in 1..(Len(e.ms)-1) |-> i], LAMBDA i : lg[i] # lg[i+1])
             want == [j \in 1..Len(keep) |-> e.ms[keep[j]]]
         IN  Clause(want = [i \in 1..Len(o.ms) |-> RToInt(o.ms[i])], "thinning")
             \cup Clause(\A i \in 1..Len(o.ms) : NearN(o.tau[i], RDiv(o.ms[i], e.rate), Eps12, R0), "tau")

(***************************** error contract ******************************)
\* the call has to be refused with an exception
RefuseVerdict(e) == IF e.out.ok THEN {"accepted"}
                    ELSE IF e.out.exc \in {"Hang"} THEN {"hang"}
                    ELSE IF e.want # "any" /\ e.out.exc # e.want THEN Exc(e.out) ELSE {}

(******************************* conversions *******************************)
\* raw: sequence of rationals or tagged tuples (NaN)
RECURSIVE FirstNum(_, _)
FirstNum(s, i) == IF IsNaN(s[i]) THEN FirstNum(s, i+1) ELSE i
RECURSIVE LastNum(_, _)
LastNum(s, i) == IF IsNaN(s[i]) THEN LastNum(s, i-1) ELSE i
Trim(s) == SubSeq(s, FirstNum(s, 1), LastNum(s, Len(s)))

\* phase from frequency data t with interior gaps (f = its finite values): the mean is taken over what was
\* measured, the phase is known up to the first gap (upto points) and unknown from there on
GapPhase(t, f, rate) ==
    LET mu == RDiv(RSumR(LAMBDA i : f[i], 1, Len(f)), I(Len(f)))
        p  == PSum(TLCEval([k \in 1..Len(t) |-> IF Num(t[k]) THEN RSub(t[k], mu) ELSE R0]))
        gap == { k \in 1..Len(t) : ~Num(t[k]) }
    IN  [v |-> TLCEval([k \in 1..(Len(t)+1) |-> RDiv(p[k], rate)]),
         upto |-> IF gap = {} THEN Len(t) + 1 ELSE CHOOSE k \in gap : \A j \in gap : k <= j]

SeqNear(a, b, r, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearN(a[i], b[i], r, t)
ConvVerdict(e) ==
    LET o == e.out  x == e.raw IN
    IF ~o.ok THEN Exc(o)
    ELSE CASE e.fn = "trim_data" -> Clause(o.v = Trim(x), "trim")
           [] e.fn = "frequency2phase" ->
                LET t == Trim(x)
                    f == SelectSeq(t, Num)                      \* the finite values
                    p == GapPhase(t, f, e.rate)
                    tol == RMul(Eps11, RAdd(MaxAbs(p.v), RDiv(RMul(MaxAbs(f), I(Len(f))), RMul(I(10), e.rate))))
                IN  Clause(Len(o.v) = Len(t) + 1, "length")
                    \cup Clause(Len(o.v) > 0 /\ o.v[1] = R0, "start")
                    \cup Clause(Len(o.v) = Len(t) + 1 /\ SeqNear(SubSeq(o.v, 1, p.upto), SubSeq(p.v, 1, p.upto), Eps9, tol), "value")
                    \cup Clause(Len(o.v) = Len(t) + 1 /\ \A i \in (p.upto+1)..Len(o.v) : IsNaN(o.v[i]), "gap")
           [] e.fn = "phase2frequency" ->
                Clause(SeqNear(o.v, PhaseToFreq(x, e.rate), Eps9, RMul(Eps12, RMul(MaxAbs(x), e.rate))), "value")
           [] e.fn = "phase2frequency.frequency2phase" ->   \* round trip: mean-removed frequency
                LET n == Len(x)  mu == RDiv(RSumR(LAMBDA i : x[i], 1, n), I(n))
                IN  Clause(SeqNear(o.v, [i \in 1..n |-> RSub(x[i], mu)], Eps9, RMul(Eps11, RMul(MaxAbs(x), I(n)))), "roundtrip")
           [] e.fn = "frequency2phase.phase2frequency" ->   \* round trip: phase minus a straight line
                LET n == Len(x)
                    sl == RDiv(RSub(x[n], x[1]), I(n-1))
                IN  Clause(SeqNear(o.v, [i \in 1..n |-> RSub(RSub(x[i], x[1]), RMul(sl, I(i-1)))], Eps9, RMul(Eps11, RMul(MaxAbs(x), I(n)))), "roundtrip")
           [] e.fn = "phase2radians" ->
                Clause(SeqNear(o.v, [i \in 1..Len(x) |-> RMul(RMul(e.twopi, e.v0), x[i])], Eps9, R0), "value")
           [] e.fn = "frequency2fractional" ->
                LET mu == IF e.mean = <<"none">> THEN RDiv(RSumR(LAMBDA i : x[i], 1, Len(x)), I(Len(x))) ELSE e.mean
                    tol == RMul(Eps11, RDiv(MaxAbs(x), RAbs(mu)))
                IN  Clause(SeqNear(o.v, [i \in 1..Len(x) |-> RDiv(RSub(x[i], mu), mu)], Eps9, tol), "value")

(*************************** exported kernels ******************************)
KernVerdict(e) ==
    LET o == e.out  x == Ser(e.ser)  N == Len(x)  m == e.m  u == e.ser.u
        tol == RMul(Eps11, MaxAbs(x))
    IN
    IF ~o.ok THEN Exc(o)
    ELSE IF e.fn = "calc_hdev_phase" THEN
         LET n   == StrideCount(N - 3*m, e.stride)
             raw == RDiv(HSum(x, m, e.stride, n), I(6*n))
             sc  == RDiv(RDiv(I(m), e.rate), u)
         IN  Clause(o.n = I(n), "n") \cup Clause(SqrtNearN(IF Num(o.dev) THEN RMul(o.dev, sc) ELSE o.dev, raw, Eps9, tol), "dev")
             \cup Clause(Num(o.dev) /\ SqrtNearN(o.err, RDiv(RSq(o.dev), I(n)), Eps9, R0), "err")
    ELSE IF e.fn = "calc_mtotdev_phase" THEN
         LET n == MtotN(N, m)  sc == RDiv(RDiv(I(m), e.rate), u)
         IN  Clause(o.n = I(n), "n") \cup Clause(SqrtNearN(IF Num(o.dev) THEN RMul(o.dev, sc) ELSE o.dev, MtotRaw(x, m), Eps9, tol), "dev")
             \cup Clause(Num(o.dev) /\ SqrtNearN(o.err, RDiv(RSq(o.dev), I(n)), Eps9, R0), "err")
    ELSE LET n == Max2(N - 3*m + 1, 0)
         IN  Clause(o.n = I(n), "n") \cup Clause(SqrtNearN(IF Num(o.dev) THEN RDiv(o.dev, u) ELSE o.dev,
                    RDiv(RSumR(LAMBDA i : SegSum(x, m, i), 1, n), RMul(I(6*n), RSq(I(m)))), Eps9, tol), "dev")
             \cup Clause(Num(o.dev) /\ SqrtNearN(o.err, RDiv(RSq(o.dev), I(n)), Eps9, R0), "err")

(***************************** mtie_phase_fast *****************************)
FastVerdict(e) ==
    LET o == e.out  full == Ser(e.ser)  K == ILog(2, Len(full))  x == SubSeq(full, 1, IPow(2, K))
        N == Len(x)
    IN
    IF ~o.ok THEN IF o.exc = "UserWarning" /\ (K = 0 \/ \A k \in 1..K : N - IPow(2, k) + 1 <= 1) THEN {} ELSE Exc(o)
    ELSE LET ks == SelectSeq([k \in 1..K |-> k], LAMBDA k : N - IPow(2, k) + 1 > 1) IN
         IF ~(Len(o.dev) = Len(ks) /\ Len(o.ns) = Len(ks) /\ Len(o.tau) = Len(ks) /\ Len(o.err) = Len(ks)) THEN {"shape"}
         ELSE Clause(\A i \in 1..Len(ks) : o.ns[i] = I(N - IPow(2, ks[i]) + 1), "n")
              \cup Clause(\A i \in 1..Len(ks) : LET w == IPow(2, ks[i]) IN
                     NearN(o.dev[i], RMul(e.ser.u, RMaxR(LAMBDA j : PeakToPeak(x, j, j + w - 1), 1, N - w + 1)), Eps9, R0), "dev")

(********************************* gradev **********************************)
GradevVerdict(e) ==
    LET gap == { e.gaps[i] : i \in 1..Len(e.gaps) }
        x == PhaseOf(e.dt, Ser(e.ser))                 \* frequency data only without gaps
        N == Len(x)
        Here(m, i) == i \notin gap /\ (i+m) \notin gap /\ (i+2*m) \notin gap
        Terms(m) == SelectSeq([i \in 1..Max2(N - 2*m, 0) |-> i], LAMBDA i : Here(m, i))
        keep(m) == Len(Terms(m)) > 1
        o == e.out
        sel(ms) == SelectedKept(ms, e.req, e.rate, N, I(N), FALSE, keep)
        U == PhaseUnit(e.dt, Ser(e.ser), e.ser.u, e.rate)
        tol == AbsTol(e.dt, Ser(e.ser), x)
    IN
    IF ~o.ok THEN IF o.exc = "UserWarning" /\ sel(<<>>) THEN {} ELSE Exc(o)
    ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.tau) = Len(o.ns) /\ Len(o.tau) = Len(o.errlo) /\ Len(o.tau) = Len(o.errhi)) THEN {"shape"}
    ELSE LET ms == [i \in 1..Len(o.tau) |-> MOf(o.tau[i], e.rate)] IN
    IF \E i \in 1..Len(ms) : ms[i] = 0 THEN {"tau"}
    ELSE Clause(sel(ms), "selection") \cup
         UNION { LET m == ms[i]  T == Terms(m)  n == Len(T)
                     sc == RDiv(RDiv(I(m), e.rate), U)
                 IN  IF n = 0 THEN {"n"} ELSE
                     Clause(o.ns[i] = I(n), "n")
                     \cup Clause(SqrtNearN(IF Num(o.dev[i]) THEN RMul(o.dev[i], sc) ELSE o.dev[i],
                            RDiv(RSumR(LAMBDA k : RSq(D2(x, m, T[k])), 1, n), I(2*n)), Eps9, tol), "dev")
                 : i \in 1..Len(ms) }

(***************************** gcodev and hat ******************************)
GcodevVerdict(e) ==
    LET k1 == Ser(e.ser)  k2 == Ser(e.ser2)
        x == PhaseOf(e.dt, k1)  y == PhaseOf(e.dt, k2)
        N == Len(x)
        u1 == PhaseUnit(e.dt, k1, e.ser.u, e.rate)  u2 == PhaseUnit(e.dt, k2, e.ser2.u, e.rate)
        UU == RMul(u1, u2)
        o == e.out
        keep(m) == OadevN(N, m) > 1
        sel(ms) == SelectedKept(ms, e.req, e.rate, N, I(N), FALSE, keep)
    IN
    IF ~o.ok THEN IF o.exc = "UserWarning" /\ sel(<<>>) THEN {} ELSE Exc(o)
    ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.tau) = Len(o.err) /\ Len(o.tau) = Len(o.ns)) THEN {"shape"}
    ELSE LET ms == [i \in 1..Len(o.tau) |-> MOf(o.tau[i], e.rate)] IN
    IF \E i \in 1..Len(ms) : ms[i] = 0 THEN {"tau"}
    ELSE Clause(sel(ms), "selection") \cup
         UNION { LET m == ms[i]  n == OadevN(N, m)
                     tau == RDiv(I(m), e.rate)
                     V == RDiv(RMul(RAbs(GcoRaw(x, y, m)), UU), RSq(tau))
                     \* rounding of the mean product is relative to the mean of |products|
                     M == RDiv(RMul(RSumR(LAMBDA k : RAbs(RMul(D2(x, m, k), D2(y, m, k))), 1, n), UU), RMul(RSq(tau), I(n)))
                     A == RDiv(RMul(RMul(RMul(Eps11, MaxAbs(x)), MaxAbs(y)), UU), RSq(tau))
                 IN  IF n < 1 THEN {"n"} ELSE
                     Clause(o.ns[i] = I(n), "n")
                     \cup Clause(Num(o.dev[i]) /\ RSgn(o.dev[i]) >= 0 /\ Near(RSq(o.dev[i]), V, Eps9, RAdd(RMul(Eps11, M), A)), "dev")
                     \cup Clause(ErrOk("gcodev", o.dev[i], o.err[i], n), "err")
                 : i \in 1..Len(ms) }

\* three-cornered hat over three phase series with statistic fn
HatVerdict(e) ==
    LET x == <<Ser(e.ab), Ser(e.bc), Ser(e.ca)>>
        u == <<e.ab.u, e.bc.u, e.ca.u>>
        N == Len(x[1])
        fn == e.fn
        o == e.out
        keep(m) == NTerms(fn, N, m) > 1
        sel(ms) == SelectedKept(ms, e.req, e.rate, N, MaxM(fn, N), EvenOnly(fn), keep)
    IN
    IF ~o.ok THEN IF o.exc = "UserWarning" /\ sel(<<>>) THEN {} ELSE Exc(o)
    ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.tau) = Len(o.err) /\ Len(o.tau) = Len(o.ns)) THEN {"shape"}
    ELSE LET ms == [i \in 1..Len(o.tau) |-> MOf(o.tau[i], e.rate)] IN
    IF \E i \in 1..Len(ms) : ms[i] = 0 THEN {"tau"}
    ELSE Clause(sel(ms), "selection") \cup
         UNION { LET m == ms[i]  n == NTerms(fn, N, m)
                     tau == RDiv(I(m), e.rate)
                     Var(k) == RDiv(RMul(RawVal(fn, x[k], m), RSq(u[k])), IF PerTau(fn, m) THEN RSq(tau) ELSE R1)
                     va == Var(1)  vb == Var(2)  vc == Var(3)
                     w  == RDiv(RSub(RAdd(va, vc), vb), I(2))
                     \* each deviation is known up to Del, hence its square up to 2 sqrt(V) Del + Del^2
                     Del(k) == RMul(RMul(Eps11, MaxAbs(x[k])), u[k])
                     Dev(k) == RMul(RSqrt(RawVal(fn, x[k], m)), u[k])
                     Abs(k) == RDiv(RMul(Del(k), RAdd(RMul(I(2), Dev(k)), Del(k))), IF PerTau(fn, m) THEN RSq(tau) ELSE R1)
                     tol == RAdd(RMul(RDiv(Eps9, I(2)), RAdd(va, RAdd(vb, vc))), RAdd(Abs(1), RAdd(Abs(2), Abs(3))))
                 IN  IF n < 1 THEN {"n"} ELSE
                     Clause(o.ns[i] = I(n), "n")
                     \cup Clause(Num(o.dev[i]) /\ RSgn(o.dev[i]) >= 0 /\ Near(RSq(o.dev[i]), RMax(w, R0), Eps9, tol), "dev")
                     \cup Clause(ErrOk("adev", o.dev[i], o.err[i], n), "err")
                 : i \in 1..Len(ms) }

(************************ relations between two calls **********************)
\* second call = first call with scaled columns: tau * st, dev * sd, n equal
RelVerdict(e) ==
    LET a == e.out.a  b == e.out.b IN
    IF ~a.ok \/ ~b.ok THEN IF ~a.ok /\ ~b.ok /\ a.exc = b.exc /\ a.exc = "UserWarning" THEN {} ELSE {"rel-exc"}
    ELSE IF ~(Len(a.tau) = Len(b.tau) /\ Len(a.dev) = Len(b.dev) /\ Len(a.err) = Len(b.err) /\ Len(a.ns) = Len(b.ns)
              /\ Len(a.dev) = Len(a.tau) /\ Len(a.err) = Len(a.tau) /\ Len(a.ns) = Len(a.tau)) THEN {"rel-shape"}
    ELSE IF ~(AllNum(a.tau) /\ AllNum(b.tau) /\ AllNum(a.dev) /\ AllNum(b.dev) /\ AllNum(a.err) /\ AllNum(b.err)) THEN {"rel-nan"}
    ELSE LET J == 1..Len(a.tau) IN
         Clause(\A i \in J : Near(b.tau[i], RMul(e.st, a.tau[i]), Eps9, R0), "rel-tau")
         \cup Clause(\A i \in J : a.ns[i] = b.ns[i], "rel-n")
         \cup Clause(\A i \in J : Near(b.dev[i], RMul(e.sd, a.dev[i]), RMul(I(10), Eps9),
                         IF e.pertau THEN RDiv(e.tol, b.tau[i]) ELSE e.tol), "rel-dev")
         \cup Clause(\A i \in J : Near(b.err[i], RMul(e.sd, a.err[i]), RMul(I(10), Eps9),
                         IF e.pertau THEN RDiv(e.tol, b.tau[i]) ELSE e.tol), "rel-err")
\* same tau and deviation at the first common tau (tau0)
CoinVerdict(e) ==
    LET o == e.out IN
    IF \E i \in 1..Len(o) : ~o[i].ok THEN {"coin-exc"}
    ELSE IF \E i \in 1..Len(o) : Len(o[i].tau) = 0 \/ Len(o[i].dev) = 0 THEN {"coin-shape"}
    ELSE Clause(\A i \in 2..Len(o) : NearN(o[i].tau[1], o[1].tau[1], Eps9, R0) /\ Num(o[1].dev[1])
                 /\ NearN(o[i].dev[1], o[1].dev[1], Eps9, e.tol), "coincide")
\* tdev = tau mdev / sqrt 3
TdevRelVerdict(e) ==
    LET t == e.out.t  m == e.out.m IN
    IF ~t.ok \/ ~m.ok THEN Clause(~t.ok /\ ~m.ok, "tdev-exc")
    ELSE IF Len(t.tau) # Len(m.tau) \/ Len(t.dev) # Len(m.dev) \/ Len(t.dev) # Len(t.tau) THEN {"tdev-shape"}
    ELSE Clause(\A i \in 1..Len(t.tau) : Num(t.tau[i]) /\ t.tau[i] = m.tau[i] /\ Num(m.dev[i])
                 /\ SqrtNearN(t.dev[i], RDiv(RSq(RMul(m.tau[i], m.dev[i])), I(3)), Eps9, R0), "tdev-mdev")
MonoVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Clause(o.exc = "UserWarning", "mono-exc")
    ELSE Clause(AllNum(o.dev) /\ \A i \in 1..(Len(o.dev)-1) : RCmp(o.dev[i], o.dev[i+1]) <= 0, "mtie-monotone")
=============================================================================
