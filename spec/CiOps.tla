------------------------------- MODULE CiOps --------------------------------
(***************************************************************************)
(* Verdicts on recorded calls of the confidence-interval and noise-        *)
(* identification functions.                                               *)
(***************************************************************************)
EXTENDS LibOps, Ci
T6 == Q(1, 1000000)
T7e == Q(1, 10000000)
T4 == Q(1, 10000)

(************************ degrees of freedom (C16) *************************)
EdfWant(e) == CASE e.fn = "edf_simple"    -> EdfSimple(e.N, e.m, e.a)
                [] e.fn = "edf_totdev"    -> EdfTot(e.N, e.m, e.a)
                [] e.fn = "edf_mtotdev"   -> EdfMtot(e.N, e.m, e.a)
                [] e.fn = "edf_greenhall_simple" -> Val(EdfPlain(e.a, e.d, e.m, e.S, e.F, e.N))
                [] e.fn = "edf_greenhall" -> Greenhall(e.a, e.d, e.m, e.N, e.over, e.mod)
EdfVerdict(e) ==
    LET w == EdfWant(e)  o == e.out IN
    IF ~w.ok THEN IF e.fn \in {"edf_simple", "edf_totdev"} THEN {}      \* logarithm of a number below one: no statement
                  ELSE Clause(~o.ok /\ o.exc # "Hang", "refuse")
    ELSE IF ~o.ok THEN Exc(o)
    ELSE Clause(NearN(o.v, w.v, IF e.fn \in {"edf_greenhall", "edf_greenhall_simple"} THEN RAdd(T6, RDiv(I(e.m * e.m), RPow(I(10), 13))) ELSE Eps9, R0), "edf")

\* the building blocks s_w, s_x and s_z; their common sign is a matter of convention
PartVerdict(e) ==
    LET o == e.out
        F == IF e.F = <<"inf">> THEN Inf ELSE e.F
        w == CASE e.fn = "greenhall_sw" -> Sw(e.t, e.a)
               [] e.fn = "greenhall_sx" -> Sx(e.t, F, e.a)
               [] e.fn = "greenhall_sz" -> Sz(e.t, F, e.a, e.d)
        u == RAdd(RAbs(e.t), I(1 + e.d))
        room == RMul(RPow(u, 4 - (IF F = Inf THEN e.a + 2 ELSE e.a)), RMul(IF F = Inf THEN R1 ELSE RSq(F), RDiv(I(IF e.fn = "greenhall_sw" THEN 0 ELSE 100), RPow(I(10), 14))))
    IN  IF ~o.ok THEN Exc(o)
        ELSE IF ~Num(o.v) THEN {"nan"}
        ELSE Clause(NearN(RAbs(o.v), RAbs(w), Eps9, room), "part")

(***************************** intervals (C17) *****************************)
LevelOf(e) == IF e.c = <<"none">> THEN OneSigma ELSE e.c
CiVerdict(e) ==
    LET o == e.out IN
    IF ~o.ok THEN Exc(o)
    ELSE IF ~(Num(o.lo) /\ Num(o.hi)) THEN {"nan"}
    ELSE Clause(IsInterval(o.lo, o.hi, e.d, e.nu, LevelOf(e), T7e), "interval")

\* integers within 1/2 (+ tolerance) of the real exponent, as integers
Rounded(a) == { k \in -8..4 : RCmp(RAbs(RSub(a, I(k))), RAdd(Q(1, 2), T6)) <= 0 }
Family(fn) == CASE fn = "adev"  -> [d |-> 2, over |-> FALSE, mod |-> FALSE]
                [] fn = "oadev" -> [d |-> 2, over |-> TRUE,  mod |-> FALSE]
                [] fn \in {"mdev", "tdev"} -> [d |-> 2, over |-> TRUE, mod |-> TRUE]
                [] fn = "hdev"  -> [d |-> 3, over |-> FALSE, mod |-> FALSE]
                [] fn = "ohdev" -> [d |-> 3, over |-> TRUE,  mod |-> FALSE]
PipeVerdict(e) ==
    LET o == e.out  x == Ser(e.ser)
        N == Len(x) + (IF e.dt = "freq" THEN 1 ELSE 0)          \* phase observations
        f == Family(e.fn)
        nid == NoiseId(x, e.m, e.dt, 0, f.d)
        as == UNION { Rounded(Alpha(c, e.dt)) : c \in nid.s }
        W(a) == Greenhall(a, f.d, e.m, N, f.over, f.mod)
        Good(a) == LET w == W(a) IN
                   IF ~w.ok THEN ~o.ok /\ o.exc # "Hang"
                   ELSE IF RSgn(w.v) <= 0 THEN TRUE
                   ELSE o.ok /\ Num(o.lo) /\ Num(o.hi) /\ IsInterval(o.lo, o.hi, e.d, w.v, LevelOf(e), T4)
    IN  IF ~nid.ok THEN Clause(~o.ok /\ o.exc # "Hang", "refuse")
        ELSE IF as = {} THEN {}
        ELSE Clause(\E a \in as : Good(a), "pipeline")

AlphaOf(nt) == CASE nt = "wp" -> 2 [] nt = "fp" -> 1 [] nt = "wf" -> 0 [] nt = "ff" -> -1 [] nt = "rf" -> -2 [] OTHER -> 99
GradErrVerdict(e) ==
    LET o == e.out
        N == e.ser.n - Len(e.gaps)          \* observed phase points
    IN
    IF ~o.ok THEN Clause(o.exc = "UserWarning", "exc")
    ELSE IF ~(Len(o.tau) = Len(o.dev) /\ Len(o.errlo) = Len(o.tau) /\ Len(o.errhi) = Len(o.tau)) THEN {"shape"}
    ELSE UNION { LET m == MOf(o.tau[i], e.rate)
                     w == EdfSimple(N, m, AlphaOf(e.noise))
                 IN  IF m = 0 \/ ~Num(o.dev[i]) THEN {}
                     ELSE IF RSgn(o.dev[i]) <= 0 \/ m >= N \/ ~w.ok THEN {}
                     ELSE IF RSgn(w.v) <= 0 THEN {}
                     ELSE Clause(Num(o.errlo[i]) /\ Num(o.errhi[i])
                                 /\ IsInterval(RSub(o.dev[i], o.errlo[i]), RAdd(o.dev[i], o.errhi[i]), o.dev[i], w.v, LevelOf(e), T6), "errors")
                 : i \in 1..Len(o.tau) }

(************************ noise identification (C18) ***********************)
NidVerdict(e) ==
    LET o == e.out  x == Ser(e.ser)
        nid == NoiseId(x, e.m, e.dt, e.dmin, e.dmax)
    IN  IF ~nid.ok THEN Clause(~o.ok /\ o.exc # "Hang", "refuse")
        ELSE IF nid.s = {} THEN {}
        ELSE IF ~o.ok THEN Exc(o)
        ELSE IF ~(Num(o.rho) /\ Num(o.alpha) /\ IntList(<<o.d, o.ai>>)) THEN {"nan"}
        ELSE LET hit == { c \in nid.s : o.d = I(c[1]) /\ Near(o.rho, c[2], T6, T6) } IN
             IF hit = {} THEN {"rho"}
             ELSE Clause(\E c \in hit : Near(o.alpha, Alpha(c, e.dt), T6, T6), "alpha")
                  \cup Clause(RCmp(RAbs(RSub(o.ai, o.alpha)), RAdd(Q(1, 2), T6)) <= 0, "rounding")
AcfVerdict(e) ==
    LET o == e.out  x == Ser(e.ser) IN
    IF RSgn(Energy(x)) = 0 THEN {} ELSE IF ~o.ok THEN Exc(o) ELSE Clause(NearN(o.v, Lag1(x), T7e, T7e), "lag1")
DetrendVerdict(e) ==
    LET o == e.out  x == Ser(e.ser) w == Detrend(x, e.deg)
        tol == RMul(Eps9, MaxAbs(x))
    IN  IF ~o.ok THEN Exc(o)
        ELSE IF Len(o.v) # Len(x) THEN {"shape"}
        ELSE Clause(\A i \in 1..Len(x) : Num(o.v[i]) /\ Near(RDiv(o.v[i], e.ser.u), w[i], R0, tol), "detrend")
RatioVerdict(e) ==
    LET o == e.out  x == Ser(e.ser) IN
    IF RSgn(AdevRaw(x, e.m)) = 0 THEN {}
    ELSE IF ~o.ok THEN Exc(o)
    ELSE Clause(NearN(o.v, IF e.fn = "rn" THEN RnRatio(x, e.m) ELSE B1Ratio(x, e.m), T7e, R0), "ratio")
TheoryVerdict(e) ==
    LET o == e.out
        w == CASE e.fn = "rn_theory"   -> RnTheory(e.n, e.b)
               [] e.fn = "rn_boundary" -> RnBoundary(e.n, e.b)
               [] e.fn = "b1_theory"   -> B1Theory(e.n, e.b)
               [] e.fn = "b1_boundary" -> B1Boundary(e.b, e.n)
               [] e.fn = "b_to_mu"     -> I(MuOf(e.b))
    IN  IF ~o.ok THEN Exc(o) ELSE Clause(NearN(o.v, w, Eps9, R0), "theory")
=============================================================================
