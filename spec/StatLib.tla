------------------------------ MODULE StatLib ------------------------------
(***************************************************************************)
(* One call of a statistic: what the documented interface promises about   *)
(* the four returned arrays, for every series, rate, data type and tau     *)
(* request.  StatVerdict(e) is the set of clauses that the recorded call e *)
(* breaks ({} = the call is a behaviour of the specification).             *)
(***************************************************************************)
EXTENDS Stats, Taus, Approx, TLC

EvenOnly(fn) == fn = "theo1"
TotLike(fn)  == fn \in {"mtotdev", "ttotdev", "htotdev"}
\* length that the limits on m refer to (frequency points for htotdev)
LimLen(fn, N) == IF fn = "htotdev" THEN N - 1 ELSE N
MaxM(fn, N)  == IF TotLike(fn) THEN Q(LimLen(fn, N), 3) ELSE I(LimLen(fn, N))

\* number of terms averaged, N phase points
NTerms(fn, N, m) ==
    CASE fn = "adev"     -> AdevN(N, m)
      [] fn = "oadev"    -> OadevN(N, m)
      [] fn = "gcodev"   -> OadevN(N, m)
      [] fn = "hdev"     -> HdevN(N, m)
      [] fn = "ohdev"    -> OhdevN(N, m)
      [] fn \in {"mdev", "tdev"} -> MdevN(N, m)
      [] fn = "pdev"     -> PdevN(N, m)
      [] fn = "totdev"   -> TotdevN(N, m)
      [] fn \in {"mtotdev", "ttotdev"} -> MtotN(N, m)
      [] fn = "htotdev"  -> HtotN(N-1, m)
      [] fn = "theo1"    -> Theo1N(N, m)
      [] fn \in {"mtie", "tierms"} -> MtieN(N, m)

\* squared deviation times (tau if PerTau)^2 in squared phase units; y = frequency in phase units * rate
PerTau(fn, m) == fn \in {"adev", "oadev", "gcodev", "hdev", "ohdev", "mdev", "pdev", "totdev", "mtotdev", "theo1"}
                 \/ (fn = "htotdev" /\ m = 1)
RawVal(fn, x, m) ==
    CASE fn = "adev"    -> AdevRaw(x, m)
      [] fn = "oadev"   -> OadevRaw(x, m)
      [] fn = "hdev"    -> HdevRaw(x, m)
      [] fn = "ohdev"   -> OhdevRaw(x, m)
      [] fn = "mdev"    -> MdevRaw(x, m)
      [] fn = "tdev"    -> TdevVal(x, m)
      [] fn = "pdev"    -> PdevRawP(x, m)
      [] fn = "totdev"  -> TotdevRaw(x, m)
      [] fn = "mtotdev" -> MtotRaw(x, m)
      [] fn = "ttotdev" -> TtotVal(x, m)
      [] fn = "theo1"   -> Theo1Raw(x, m)
      [] fn = "mtie"    -> RSq(MtieTab(x, m))
      [] fn = "tierms"  -> TierVal(x, m)
      [] fn = "htotdev" -> IF m = 1 THEN OhdevRaw(x, m)
                           ELSE HtotVal(PhaseToFreq(x, R1), m)

(* the series of an event: integers (or big integers) times the unit u *)
Ser(s) == TLCEval([i \in 1..Len(s.k) |-> IF s.big THEN <<s.k[i], BOfInt(1)>> ELSE I(s.k[i])])

\* phase series in units of PhaseUnit: frequency is summed as n*y - sum(y), exact integers
PhaseOf(dt, ks) ==
    IF dt = "phase" THEN ks
    ELSE LET n == Len(ks)
             s == RSumR(LAMBDA i : ks[i], 1, n)
         IN  TLCEval(PSum([i \in 1..n |-> RSub(RMul(I(n), ks[i]), s)]))
PhaseUnit(dt, ks, u, rate) ==
    IF dt = "phase" THEN u ELSE RDiv(u, RMul(I(Len(ks)), rate))
AbsTol(dt, ks, x) ==
    RMul(Eps11, IF dt = "phase" THEN MaxAbs(x) ELSE RMax(MaxAbs(x), RMul(I(Len(ks)), MaxAbs(ks))))

\* averaging factor that a reported tau stands for; 0 if it is no multiple of 1/rate
MOf(tau, rate) ==
    IF ~IsNum(tau) THEN 0
    ELSE LET r == RMul(tau, rate) IN
         IF RCmp(RAbs(r), I(100000000)) > 0 THEN 0
         ELSE LET m == RToInt(RFloor(RAdd(r, Q(1, 2)))) IN
              IF m > 0 /\ Near(r, I(m), Eps9, R0) THEN m ELSE 0

ErrN(fn, N, m) == IF fn = "theo1" THEN N - m ELSE NTerms(fn, N, m)

DevOk(fn, x, m, d, tau, U, tol) ==
    LET sc == RDiv(IF PerTau(fn, m) THEN tau
                   ELSE IF fn = "htotdev" THEN R1 ELSE R1, U)
    IN  SqrtNearN(IF IsNum(d) THEN RMul(d, sc) ELSE d, RawVal(fn, x, m), Eps9, tol)

ErrOk(fn, d, er, n) ==
    IF fn = "tierms" THEN er = R0
    ELSE IsNum(d) /\ SqrtNearN(er, RDiv(RSq(d), I(n)), Eps9, R0)

\* points at which a long result is evaluated in full (all selected when the driver asks for all)
StatVerdict(e) ==
    LET ks   == Ser(e.ser)
        NP   == IF e.dt = "phase" THEN Len(ks) ELSE Len(ks) + 1
        fn   == e.fn
        LL   == LimLen(fn, NP)
        keep(m) == NTerms(fn, NP, m) > 1
        o    == e.out
        sel(ms) == SelectedKept(ms, e.req, e.rate, LL, MaxM(fn, NP), EvenOnly(fn), keep)
    IN
    IF ~o.ok THEN
        IF o.exc = "UserWarning" /\ sel(<<>>) THEN {} ELSE {"exc:" \o o.exc}
    ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.tau) = Len(o.err) /\ Len(o.tau) = Len(o.ns))
         THEN {"shape"}
    ELSE IF Len(o.tau) = 0 THEN {"empty"}
    ELSE LET ms == [i \in 1..Len(o.tau) |-> MOf(o.tau[i], e.rate)] IN
    IF \E i \in 1..Len(ms) : ms[i] = 0 THEN {"tau"}
    ELSE (IF sel(ms) THEN {} ELSE {"selection"}) \cup
         LET x   == PhaseOf(e.dt, ks)
             u0  == PhaseUnit(e.dt, ks, e.ser.u, e.rate)
             U(m) == IF fn = "htotdev" /\ m > 1 THEN RMul(u0, e.rate) ELSE u0
             tol == AbsTol(e.dt, ks, x)
             Bad(i) ==
                LET m == ms[i]  n == NTerms(fn, NP, m) IN
                IF n < 1 THEN {"n"}
                ELSE (IF o.ns[i] = I(n) THEN {} ELSE {"n"})
                     \cup (IF DevOk(fn, x, m, o.dev[i], RDiv(I(m), e.rate), U(m), tol) THEN {} ELSE {"dev"})
                     \cup (IF ErrOk(fn, o.dev[i], o.err[i], ErrN(fn, NP, m)) THEN {} ELSE {"err"})
         IN UNION { Bad(i) : i \in 1..Len(ms) }
\* the rows do not depend on the values: a record with missing points inside has the same ones
RowsVerdict(e) ==
    LET fn == e.fn
        NP == IF e.dt = "phase" THEN e.n ELSE e.n + 1
        keep(m) == NTerms(fn, NP, m) > 1
        sel(ms) == SelectedKept(ms, e.req, e.rate, LimLen(fn, NP), MaxM(fn, NP), EvenOnly(fn), keep)
        o == e.out
    IN  IF ~o.ok THEN IF o.exc = "UserWarning" /\ sel(<<>>) THEN {} ELSE {"exc:" \o o.exc}
        ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.tau) = Len(o.err) /\ Len(o.tau) = Len(o.ns)) THEN {"shape"}
        ELSE IF Len(o.tau) = 0 THEN {"empty"}
        ELSE LET ms == [i \in 1..Len(o.tau) |-> MOf(o.tau[i], e.rate)] IN
             IF \E i \in 1..Len(ms) : ms[i] = 0 THEN {"tau"}
             ELSE (IF sel(ms) THEN {} ELSE {"selection"})
                  \cup (IF \A i \in 1..Len(ms) : o.ns[i] = I(NTerms(fn, NP, ms[i])) THEN {} ELSE {"n"})

=============================================================================
