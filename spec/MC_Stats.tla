------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* Exhaustive check of the definitions in Stats.tla against independent    *)
(* formulations and against step-wise algorithms, on EVERY series over     *)
(* Alpha up to length L.  The series grows one sample at a time; the       *)
(* accumulators are the ones a streaming estimator keeps.                  *)
(***************************************************************************)
EXTENDS Stats, Approx, TLC, FiniteSets, IOUtils
Alpha == {-1, 0, 2}
L == atoi(IOEnv.MC_L)
Which == IOEnv.MC_WHICH
VARIABLE xs                       \* integers
vars == <<xs>>
Init == xs = <<>>
Next == Len(xs) < L /\ \E a \in Alpha : xs' = Append(xs, a)
Spec == Init /\ [][Next]_vars

N == Len(xs)
X == TLCEval([i \in 1..N |-> I(xs[i])])
Ms == 1..N
Rev(x) == [i \in 1..Len(x) |-> x[Len(x)+1-i]]
Plus(x, a, b, c) == [i \in 1..Len(x) |-> RAdd(x[i], I(a + b*i + c*i*i))]
Times(x, c) == [i \in 1..Len(x) |-> RMul(x[i], c)]

\* AVAR through averaged fractional frequency, its original definition
YBar(x, m, i) == RDiv(RSub(x[i+m], x[i]), I(m))
AvarFreq(x, m, s, n) ==
    RDiv(RSumR(LAMBDA k : LET i == 1 + (k-1)*s IN RSq(RSub(YBar(x, m, i+m), YBar(x, m, i))), 1, n), I(2*n))
HvarFreq(x, m, s, n) ==
    RDiv(RSumR(LAMBDA k : LET i == 1 + (k-1)*s IN
         RSq(RAdd(RSub(YBar(x, m, i+2*m), RMul(I(2), YBar(x, m, i+m))), YBar(x, m, i))), 1, n), I(6*n))
Idx(s, d) == { i \in 1..N : i + d <= N /\ (i - 1) % s = 0 }

AllanInv ==
    LET x == X  lin == Plus(x, 3, -2, 0)  quad == Plus(x, 1, 5, -1) IN
    \A m \in Ms :
      /\ AdevN(N, m)  = Cardinality(Idx(m, 2*m)) /\ OadevN(N, m)  = Cardinality(Idx(1, 2*m))
      /\ HdevN(N, m)  = Cardinality(Idx(m, 3*m)) /\ OhdevN(N, m)  = Cardinality(Idx(1, 3*m))
      /\ AdevN(N, m) > 0 =>
           /\ AdevRaw(x, m) = RMul(RSq(I(m)), AvarFreq(x, m, m, AdevN(N, m)))
           /\ OadevRaw(x, m) = RMul(RSq(I(m)), AvarFreq(x, m, 1, OadevN(N, m)))
           /\ AdevRaw(lin, m) = AdevRaw(x, m) /\ OadevRaw(lin, m) = OadevRaw(x, m)
           /\ OadevRaw(Rev(x), m) = OadevRaw(x, m)
           /\ OadevRaw(Times(x, Q(-3, 7)), m) = RMul(Q(9, 49), OadevRaw(x, m))
           /\ m = 1 => AdevRaw(x, 1) = OadevRaw(x, 1)
      /\ HdevN(N, m) > 0 =>
           /\ HdevRaw(x, m) = RMul(RSq(I(m)), HvarFreq(x, m, m, HdevN(N, m)))
           /\ OhdevRaw(x, m) = RMul(RSq(I(m)), HvarFreq(x, m, 1, OhdevN(N, m)))
           /\ HdevRaw(quad, m) = HdevRaw(x, m) /\ OhdevRaw(quad, m) = OhdevRaw(x, m)
           /\ OhdevRaw(Rev(x), m) = OhdevRaw(x, m)

\* running-window form used by streaming estimators: v_1 explicit, v_(j+1) = v_j + third difference
RECURSIVE MdevRun(_, _, _, _, _)
MdevRun(x, m, j, v, s) ==
    IF j > MdevN(Len(x), m) THEN s
    ELSE LET w == IF j = 1 THEN MdevInnerDef(x, m, 1) ELSE RAdd(v, D3(x, m, j-1))
         IN  MdevRun(x, m, j+1, w, RAdd(s, RSq(w)))
\* slope of the least-squares line through x[i..i+m-1], times (m^3-m)/12
LsSlope(x, m, i) == RSumR(LAMBDA k : RMul(Q(2*k - m + 1, 2), x[i+k]), 0, m-1)
ModInv ==
    LET x == X  lin == Plus(x, 3, -2, 0)  IN
    \A m \in Ms :
      /\ MdevN(N, m) > 0 =>
           /\ MdevRaw(x, m) = MdevRawDef(x, m)
           /\ MdevRaw(x, m) = RDiv(MdevRun(x, m, 1, R0, R0), RMul(I(2*MdevN(N, m)), RSq(I(m))))
           /\ MdevRaw(lin, m) = MdevRaw(x, m) /\ MdevRaw(Rev(x), m) = MdevRaw(x, m)
           /\ m = 1 => MdevRaw(x, 1) = OadevRaw(x, 1)
      /\ PdevN(N, m) > 0 =>
           /\ PdevRaw(lin, m) = PdevRaw(x, m) /\ PdevRawP(x, m) = PdevRaw(x, m)
           /\ \A i \in 1..PdevN(N, m) : PdevInner(x, m, i) = RSub(LsSlope(x, m, i+m), LsSlope(x, m, i))

\* the reflected series written out as one array of 3N-4 points
Ext(x) == LET n == Len(x) IN
    [j \in 1..(n-2) |-> RSub(RMul(I(2), x[1]), x[n-j])] \o x \o
    [j \in 1..(n-2) |-> RSub(RMul(I(2), x[n]), x[n-j])]
TotRun(x, m) == LET n == Len(x)  y == Ext(x) IN
    RDiv(RSumR(LAMBDA i : RSq(RAdd(RSub(y[n-2+i-m], RMul(I(2), y[n-2+i])), y[n-2+i+m])), 2, n-1), I(2*(n-2)))
TotInv ==
    LET x == X  lin == Plus(x, 3, -2, 0)  r == Rev(x)  IN
    N >= 3 => \A m \in 1..(N-1) :
      /\ TotdevRaw(x, m) = TotRun(x, m)
      /\ TotdevRaw(lin, m) = TotdevRaw(x, m) /\ TotdevRaw(r, m) = TotdevRaw(x, m)
      /\ 3*m <= N =>
           /\ MtotRaw(lin, m) = MtotRaw(x, m) /\ MtotRaw(r, m) = MtotRaw(x, m)
           /\ m > 1 => HtotVal(r, m) = HtotVal(x, m) /\ HtotVal(lin, m) = HtotVal(x, m)
           /\ \A i \in 1..MtotN(N, m) : LET s == SegStar(x, m, i) IN Len(s) = 9*m /\ \A k \in 1..(3*m) : s[3*m+1-k] = s[3*m+k] /\ s[6*m+1-k] = s[6*m+k]
      /\ (m % 2 = 0) =>
           /\ Theo1Raw(lin, m) = Theo1Raw(x, m) /\ Theo1Raw(r, m) = Theo1Raw(x, m)
           /\ Theo1N(N, m) = Cardinality({ <<i, d>> \in (1..N) \X (0..N) : i + m <= N /\ 2*d < m })

\* sliding window with running extremes (recomputed when the leaving point was an extreme)
RECURSIVE Slide(_, _, _, _, _, _)
Slide(x, m, i, mx, mn, best) ==
    IF i + m > Len(x) THEN best
    ELSE LET mx2 == IF mx = x[i-1] THEN RMaxR(LAMBDA k : x[k], i, i+m) ELSE RMax(mx, x[i+m])
             mn2 == IF mn = x[i-1] THEN RMinR(LAMBDA k : x[k], i, i+m) ELSE RMin(mn, x[i+m])
         IN  Slide(x, m, i+1, mx2, mn2, RMax(best, RSub(mx2, mn2)))
MtieSlide(x, m) == LET a == RMaxR(LAMBDA k : x[k], 1, m+1)  b == RMinR(LAMBDA k : x[k], 1, m+1) IN
    Slide(x, m, 2, a, b, RSub(a, b))
\* doubling: extremes over 2^k points from two windows of 2^(k-1)
RECURSIVE DMax(_, _, _)
DMax(x, i, k) == IF k = 0 THEN x[i] ELSE RMax(DMax(x, i, k-1), DMax(x, i + 2^(k-1), k-1))
RECURSIVE DMin(_, _, _)
DMin(x, i, k) == IF k = 0 THEN x[i] ELSE RMin(DMin(x, i, k-1), DMin(x, i + 2^(k-1), k-1))
TieInv ==
    LET x == X  off == Plus(x, 9, 0, 0)  IN
    \A m \in 1..(N-1) :
      /\ MtieDev(x, m) = MtieSlide(x, m) /\ MtieTab(x, m) = MtieDev(x, m)
      /\ MtieDev(off, m) = MtieDev(x, m) /\ MtieDev(Rev(x), m) = MtieDev(x, m)
      /\ m + 1 < N => RCmp(MtieDev(x, m), MtieDev(x, m+1)) <= 0
      /\ RCmp(TierVal(x, m), RSq(MtieDev(x, m))) <= 0
      /\ TierVal(off, m) = TierVal(x, m) /\ TierVal(Rev(x), m) = TierVal(x, m)
      /\ \A k \in 1..3 : m + 1 = 2^k =>
            MtieDev(x, m) = RMaxR(LAMBDA i : RSub(DMax(x, i, k), DMin(x, i, k)), 1, N - m)

Inv == CASE Which = "allan" -> AllanInv [] Which = "mod" -> ModInv [] Which = "tot" -> TotInv [] Which = "tie" -> TieInv
         [] Which = "all" -> AllanInv /\ ModInv /\ TotInv /\ TieInv
=============================================================================
