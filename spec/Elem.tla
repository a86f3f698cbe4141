-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary and special functions on rationals, to about 10^-29          *)
(* absolute: every intermediate value is truncated to a multiple of        *)
(* 10^-32.  Operators marked (J) have Java overrides running the same      *)
(* algorithm on scaled integers (MC_Elem compares them).                   *)
(***************************************************************************)
EXTENDS Rat
KK == RPow(I(10), 32)
TT(a) == RTrunc(a, KK)
TMul(a, b) == TT(RMul(a, b))                                        \* (J)
TDiv(a, b) == TT(RDiv(a, b))                                        \* (J)

\* sum of z^(2k+1)/(2k+1), with alternating signs if s = -1; term p at index k
RECURSIVE OddSer(_, _, _, _, _)
OddSer(p, z2, s, k, acc) ==
    LET t == TDiv(p, I(2 * k + 1)) IN
    IF RSgn(t) = 0 \/ (RSgn(t) < 0 /\ RCmp(t, RNeg(TDiv(R1, KK))) >= 0) THEN acc
    ELSE OddSer(TMul(p, z2), z2, s, k + 1, IF s = -1 /\ k % 2 = 1 THEN RSub(acc, t) ELSE RAdd(acc, t))
Atanh(z) == OddSer(TT(z), TMul(TT(z), TT(z)), 1, 0, R0)
Atan(z)  == OddSer(TT(z), TMul(TT(z), TT(z)), -1, 0, R0)            \* |z| < 1/2
Ln2 == RMul(I(2), Atanh(Q(1, 3)))
Pi  == RSub(RMul(I(16), Atan(Q(1, 5))), RMul(I(4), Atan(Q(1, 239))))

RECURSIVE Norm2(_, _)
Norm2(x, k) == IF RCmp(x, Q(4, 3)) > 0 THEN Norm2(RDiv(x, I(2)), k + 1)
               ELSE IF RCmp(x, Q(2, 3)) < 0 THEN Norm2(RMul(x, I(2)), k - 1) ELSE <<x, k>>
RLn(x) ==                                   \* x > 0                   (J)
    LET n == Norm2(x, 0)
        z == TDiv(RSub(n[1], R1), RAdd(n[1], R1))
    IN  RAdd(RMul(I(2), Atanh(z)), RMul(I(n[2]), Ln2))

RECURSIVE ExpSer(_, _, _, _)
ExpSer(t, r, k, acc) == IF RSgn(t) = 0 \/ RCmp(RAbs(t), TDiv(R1, KK)) <= 0 THEN acc
                        ELSE ExpSer(TDiv(TMul(t, r), I(k + 1)), r, k + 1, RAdd(acc, t))
RExp(x) ==                                  \*                         (J)
    LET k == RFloor(RAdd(RDiv(x, Ln2), Q(1, 2)))
        r == TT(RSub(x, RMul(k, Ln2)))
    IN  TT(RMul(ExpSer(R1, r, 0, R0), RPow(I(2), RToInt(k))))

\* integer square root by Newton's iteration from above
RECURSIVE ISqrt(_, _)
ISqrt(n, g) == LET h == RFloor(RDiv(RAdd(g, RFloor(RDiv(n, g))), I(2))) IN
               IF RCmp(h, g) >= 0 THEN g ELSE ISqrt(n, h)
RSqrt(x) == IF RSgn(x) = 0 THEN R0                                  \* (J)
            ELSE LET n == RFloor(RMul(x, RMul(KK, KK))) IN
                 IF RSgn(n) = 0 THEN R0 ELSE RDiv(ISqrt(n, RAdd(n, R1)), KK)

\* Taylor terms of sine (k odd start 1) and cosine (k = 0) on |r| <= pi
RECURSIVE TrigSer(_, _, _, _)
TrigSer(t, r2, k, acc) == IF RCmp(RAbs(t), TDiv(R1, KK)) <= 0 THEN acc
                          ELSE TrigSer(RNeg(TDiv(TMul(t, r2), I((k + 1) * (k + 2)))), r2, k + 2, RAdd(acc, t))
Reduce(x) == LET k == RFloor(RAdd(RDiv(x, RMul(I(2), Pi)), Q(1, 2))) IN TT(RSub(x, RMul(k, RMul(I(2), Pi))))
RSin(x) == LET r == Reduce(x) IN TrigSer(r, TMul(r, r), 1, R0)      \* (J)
RCos(x) == LET r == Reduce(x) IN TrigSer(R1, TMul(r, r), 0, R0)     \* (J)

\* x^y for x > 0
RPowR(x, y) == IF RIsInt(y) THEN TT(RPow(x, RToInt(y))) ELSE RExp(TMul(y, RLn(x)))

(* relative precision: 80 significant decimal digits *)
RECURSIVE Decade(_, _)                                              \* the power of ten s with s <= x < 10 s
Decade(x, s) == IF RCmp(x, s) < 0 THEN Decade(x, RDiv(s, I(10)))
                ELSE IF RCmp(x, RMul(I(10), s)) >= 0 THEN Decade(x, RMul(I(10), s)) ELSE s
RSig(x) == IF RSgn(x) = 0 THEN R0                                   \* (J)
           ELSE LET s == Decade(RAbs(x), R1) IN RMul(RTrunc(RDiv(x, s), RPow(I(10), 80)), s)
SMul(a, b) == RSig(RMul(a, b))
SDiv(a, b) == RSig(RDiv(a, b))
\* x^y for x > 0
SPow(x, y) == IF RIsInt(y) THEN RSig(RPow(x, RToInt(y)))
              ELSE LET v == RMul(y, RLn(x))
                       k == RFloor(RDiv(v, Ln2))
                   IN  RSig(RMul(RExp(TT(RSub(v, RMul(k, Ln2)))), RPow(I(2), RToInt(k))))

(**************************** special functions ****************************)
\* B_2k / (2k (2k-1)), k = 1..10
Stirling == <<Q(1, 12), Q(-1, 360), Q(1, 1260), Q(-1, 1680), Q(1, 1188), Q(-691, 360360), Q(1, 156), Q(-3617, 122400),
              Q(43867, 244188), Q(-174611, 125400)>>
LnGammaBig(z) == LET zi == TDiv(R1, z)  z2 == TMul(zi, zi) IN
    RAdd(RAdd(RSub(TMul(RSub(z, Q(1, 2)), RLn(z)), z), RDiv(RLn(RMul(I(2), Pi)), I(2))),
         RSumR(LAMBDA k : TMul(Stirling[k], TMul(zi, TT(RPow(z2, k - 1)))), 1, 10))
RECURSIVE Rising(_, _, _)
Rising(z, k, acc) == IF k = 0 THEN acc ELSE Rising(RAdd(z, R1), k - 1, TMul(acc, z))
LnGamma(z) == IF RCmp(z, I(30)) >= 0 THEN LnGammaBig(TT(z))
              ELSE RSub(LnGammaBig(TT(RAdd(z, I(30)))), RLn(Rising(TT(z), 30, R1)))

\* regularised lower incomplete gamma function, a > 0, x >= 0
RECURSIVE GSer(_, _, _, _, _)
GSer(t, a, x, n, acc) ==                    \* t = x^n / ((a+1)...(a+n)), scaled
    IF RCmp(RAbs(t), TMul(acc, RDiv(R1, RPow(I(10), 28)))) <= 0
    THEN RAdd(acc, t)
    ELSE GSer(TMul(t, TDiv(x, RAdd(a, I(n + 1)))), a, x, n + 1, RAdd(acc, t))
GammaP(a, x) ==
    IF RSgn(x) = 0 THEN R0
    ELSE LET s == GSer(R1, a, x, 0, R0)
         IN  RExp(RAdd(RSub(RSub(TMul(a, RLn(x)), x), LnGamma(RAdd(a, R1))), RLn(s)))
\* the probability that a standard normal variable is within one sigma
OneSigma == GammaP(Q(1, 2), Q(1, 2))
=============================================================================
