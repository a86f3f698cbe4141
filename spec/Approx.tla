------------------------------ MODULE Approx ------------------------------
(* Comparison of reported IEEE doubles (as exact rationals, or the tagged    *)
(* 1-tuples <<"nan">>, <<"inf">>, <<"-inf">>) with exact specification       *)
(* values.                                                                   *)
EXTENDS Rat

IsNum(v) == Len(v) = 2
IsNaN(v) == Len(v) = 1 /\ v[1] = "nan"

Eps9  == RDiv(R1, I(1000000000))
Eps6  == Q(1, 1000000)
Eps11 == RDiv(Eps9, I(100))
Eps12 == RDiv(Eps9, I(1000))

\* v = w up to relative r and absolute a
Near(v, w, r, a) == RCmp(RAbs(RSub(v, w)), RAdd(RMul(r, RMax(RAbs(v), RAbs(w))), a)) <= 0
\* d is a non-negative square root of V >= 0 up to relative r and absolute a
SqrtNear(d, V, r, a) ==
    LET del == RAdd(RMul(r, RAbs(d)), a)
        lo  == RMax(RSub(d, del), R0)
        hi  == RAdd(d, del)
    IN  /\ RCmp(hi, R0) >= 0
        /\ RCmp(RSq(lo), V) <= 0
        /\ RCmp(V, RSq(hi)) <= 0
NearN(v, w, r, a)     == IsNum(v) /\ Near(v, w, r, a)
SqrtNearN(d, V, r, a) == IsNum(d) /\ SqrtNear(d, V, r, a)
\* largest magnitude in a sequence of rationals
MaxAbs(x) == IF Len(x) = 0 THEN R0 ELSE RMaxR(LAMBDA i : RAbs(x[i]), 1, Len(x))
=============================================================================
