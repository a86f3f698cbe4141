-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.                                      *)
(*                                                                         *)
(* TLC's integers are 32-bit, so unbounded integers are represented as     *)
(* signed little-endian base-10^4 limb tuples <<sgn, l0, l1, ...>> with    *)
(* sgn \in {-1,0,1} and no leading zero limb (zero is <<0>>), and a        *)
(* rational as <<num, den>> with den > 0 and gcd(num,den) = 1.  The        *)
(* representation is canonical: two rationals are equal iff the tuples     *)
(* are equal, so TLA+ "=" is rational equality.                            *)
(*                                                                         *)
(* Every operator below has a plain TLA+ definition, which is its meaning. *)
(* java/RatOverrides.java re-implements the operators marked (J) with      *)
(* BigInteger for speed on the same representation;                        *)
(* MC_Rat.tla evaluates both and compares them.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

(********************** magnitudes: little-endian limb sequences **********)
RECURSIVE MTrim(_)
MTrim(s) == IF s = <<>> THEN s
            ELSE IF s[Len(s)] = 0 THEN MTrim(SubSeq(s, 1, Len(s)-1)) ELSE s

Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE MCmpAt(a, b, i-1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpAt(a, b, Len(a))

RECURSIVE MAddAt(_, _, _, _)
MAddAt(a, b, i, c) ==
    IF i > Max2(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == Limb(a, i) + Limb(b, i) + c
         IN  <<t % Base>> \o MAddAt(a, b, i+1, t \div Base)
MAdd(a, b) == MAddAt(a, b, 1, 0)

RECURSIVE MSubAt(_, _, _, _)
MSubAt(a, b, i, c) ==                       \* requires a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - Limb(b, i) - c
         IN  IF t < 0 THEN <<t + Base>> \o MSubAt(a, b, i+1, 1)
             ELSE <<t>> \o MSubAt(a, b, i+1, 0)
MSub(a, b) == MTrim(MSubAt(a, b, 1, 0))

RECURSIVE MScaleAt(_, _, _, _)
MScaleAt(a, k, i, c) ==                     \* 0 <= k < Base
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == a[i] * k + c
         IN  <<t % Base>> \o MScaleAt(a, k, i+1, t \div Base)
MScale(a, k) == IF k = 0 THEN <<>> ELSE MScaleAt(a, k, 1, 0)
RECURSIVE MMul(_, _)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE MAdd(MScale(a, b[1]),
                        LET r == MMul(a, Tail(b)) IN IF r = <<>> THEN r ELSE <<0>> \o r)

RECURSIVE MDigit(_, _, _, _)
MDigit(r, b, lo, hi) ==                     \* largest q in lo..hi with q*b <= r
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF MCmp(MScale(b, mid), r) <= 0 THEN MDigit(r, b, mid, hi)
             ELSE MDigit(r, b, lo, mid - 1)
RECURSIVE MDivAt(_, _, _, _, _)
MDivAt(a, b, i, q, r) ==                    \* long division, most significant limb first
    IF i = 0 THEN <<MTrim(q), r>>
    ELSE LET r1 == MTrim(<<a[i]>> \o r)
             d  == MDigit(r1, b, 0, Base - 1)
         IN  MDivAt(a, b, i-1, <<d>> \o q, MSub(r1, MScale(b, d)))
MDivMod(a, b) == MDivAt(a, b, Len(a), <<>>, <<>>)

RECURSIVE MGcd(_, _)
MGcd(a, b) == IF b = <<>> THEN a ELSE MGcd(b, MDivMod(a, b)[2])

RECURSIVE MOfInt(_)
MOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MOfInt(n \div Base)

(***************************** signed integers *****************************)
BMk(sgn, mag) == IF mag = <<>> THEN <<0>> ELSE <<sgn>> \o mag
BMag(b) == Tail(b)
BSgn(b) == b[1]
BZero == <<0>>
BOfInt(n) == IF n >= 0 THEN BMk(1, MOfInt(n)) ELSE BMk(-1, MOfInt(-n))
BNeg(a) == BMk(-BSgn(a), BMag(a))
BAbs(a) == BMk(1, BMag(a))
BAdd(a, b) ==                                                       \* (J)
    IF BSgn(a) = 0 THEN b ELSE IF BSgn(b) = 0 THEN a
    ELSE IF BSgn(a) = BSgn(b) THEN BMk(BSgn(a), MAdd(BMag(a), BMag(b)))
    ELSE LET c == MCmp(BMag(a), BMag(b)) IN
         IF c = 0 THEN BZero
         ELSE IF c > 0 THEN BMk(BSgn(a), MSub(BMag(a), BMag(b)))
         ELSE BMk(BSgn(b), MSub(BMag(b), BMag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == BMk(BSgn(a) * BSgn(b), MMul(BMag(a), BMag(b)))        \* (J)
BCmp(a, b) ==                                                       \* (J)
    LET d == BAdd(a, BNeg(b)) IN BSgn(d)
BQuo(a, b) == BMk(BSgn(a) * BSgn(b), MDivMod(BMag(a), BMag(b))[1])  \* truncated (J)

(******************************* rationals *********************************)
RMk(n, d) ==                                \* n, d integers, d # 0         (J)
    LET g  == MGcd(BMag(n), BMag(d))
        nn == IF BSgn(n) = 0 THEN BZero ELSE BMk(BSgn(n) * BSgn(d), MDivMod(BMag(n), g)[1])
        dd == IF BSgn(n) = 0 THEN BOfInt(1) ELSE BMk(1, MDivMod(BMag(d), g)[1])
    IN  <<nn, dd>>
RNum(a) == a[1]
RDen(a) == a[2]
I(n) == <<BOfInt(n), BOfInt(1)>>                                    \* (J)
Q(n, d) == RMk(BOfInt(n), BOfInt(d))                                \* (J)
RAdd(a, b) == RMk(BAdd(BMul(RNum(a), RDen(b)), BMul(RNum(b), RDen(a))), BMul(RDen(a), RDen(b)))   \* (J)
RNeg(a) == <<BNeg(RNum(a)), RDen(a)>>                               \* (J)
RSub(a, b) == RAdd(a, RNeg(b))                                      \* (J)
RMul(a, b) == RMk(BMul(RNum(a), RNum(b)), BMul(RDen(a), RDen(b)))   \* (J)
RDiv(a, b) == RMk(BMul(RNum(a), RDen(b)), BMul(RDen(a), RNum(b)))   \* b # 0 (J)
RCmp(a, b) == BCmp(BMul(RNum(a), RDen(b)), BMul(RNum(b), RDen(a)))  \* (J)
RSgn(a) == BSgn(RNum(a))
RAbs(a) == <<BAbs(RNum(a)), RDen(a)>>                               \* (J)
\* Floor as a rational integer
RFloor(a) ==                                                        \* (J)
    LET dm == MDivMod(BMag(RNum(a)), BMag(RDen(a))) IN
    IF BSgn(RNum(a)) >= 0 THEN <<BMk(1, dm[1]), BOfInt(1)>>
    ELSE <<BNeg(BMk(1, IF dm[2] = <<>> THEN dm[1] ELSE MAdd(dm[1], <<1>>))), BOfInt(1)>>
\* TLC integer value of a small integral rational
RECURSIVE MToInt(_)
MToInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + Base * MToInt(Tail(s))
RToInt(a) == BSgn(RNum(a)) * MToInt(BMag(RNum(a)))                  \* (J)
RIsInt(a) == RDen(a) = BOfInt(1)
\* a truncated (towards minus infinity) to a multiple of 1/k, k a positive rational integer
RTrunc(a, k) == RDiv(RFloor(RMul(a, k)), k)                         \* (J)

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b   == RCmp(a, b) < 0
a \preceq b == RCmp(a, b) <= 0
a \succ b   == RCmp(a, b) > 0
a \succeq b == RCmp(a, b) >= 0

R0 == I(0)
R1 == I(1)
RSq(a) == RMul(a, a)
RMax(a, b) == IF RCmp(a, b) >= 0 THEN a ELSE b
RMin(a, b) == IF RCmp(a, b) <= 0 THEN a ELSE b
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1                                      \* k \in Int (J)
              ELSE IF k < 0 THEN RDiv(R1, RPow(a, -k))
              ELSE RMul(a, RPow(a, k-1))

\* Folds with explicit index ranges, balanced so that deep recursion is avoided
RECURSIVE RSumR(_, _, _)
RSumR(f(_), lo, hi) ==                      \* sum of f(i), i \in lo..hi
    IF lo > hi THEN R0
    ELSE IF lo = hi THEN f(lo)
    ELSE LET mid == (lo + hi) \div 2 IN RAdd(RSumR(f, lo, mid), RSumR(f, mid+1, hi))
RECURSIVE RMaxR(_, _, _)
RMaxR(f(_), lo, hi) ==
    IF lo = hi THEN f(lo)
    ELSE LET mid == (lo + hi) \div 2 IN RMax(RMaxR(f, lo, mid), RMaxR(f, mid+1, hi))
RECURSIVE RMinR(_, _, _)
RMinR(f(_), lo, hi) ==
    IF lo = hi THEN f(lo)
    ELSE LET mid == (lo + hi) \div 2 IN RMin(RMinR(f, lo, mid), RMinR(f, mid+1, hi))

\* prefix sums: RScan(x)[k+1] = x[1] + ... + x[k]                      (J)
RECURSIVE RScanAt(_, _, _)
RScanAt(x, k, acc) == IF k > Len(x) THEN acc ELSE RScanAt(x, k+1, Append(acc, RAdd(acc[k], x[k])))
RScan(x) == RScanAt(x, 1, <<R0>>)

IsRat(v) == Len(v) = 2
=============================================================================
