------------------------------- MODULE Taus -------------------------------
(***************************************************************************)
(* Which averaging factors a statistic is evaluated at.                    *)
(*                                                                         *)
(* req is the user's request: [kw |-> "all" | "octave" | "decade" |        *)
(* "log10"] or [kw |-> "list", list |-> sequence of rationals (seconds)].  *)
(* N is the length of the series the limits refer to.                      *)
(*                                                                         *)
(* Must(..) is the set of averaging factors that have to be there, May(..) *)
(* the set that can be: they differ only where tau*rate is (numerically)   *)
(* half way between two integers, where the rounding of the product        *)
(* decides.  Entries that are not numbers (NaN, inf) select nothing.       *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

\* largest k with b^k <= n
RECURSIVE ILog(_, _)
ILog(b, n) == IF n < b THEN 0 ELSE 1 + ILog(b, n \div b)
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k-1)

TieTol == Q(1, 1000000)
\* the integers that r rounds to (two of them at a tie)
Rnd(r) ==
    LET f  == RToInt(RFloor(r))
        d  == RSub(RSub(r, I(f)), Q(1, 2))
    IN  IF RCmp(RAbs(d), TieTol) <= 0 THEN {f, f+1}
        ELSE IF RSgn(d) < 0 THEN {f} ELSE {f+1}

\* log10 keyword: round(N^(k/(K-1))), k = 0..K-1, K = floor(10 log10 N).
\* v is the rounding of that power iff (v-1/2)^(K-1) <= N^k <= (v+1/2)^(K-1).
RECURSIVE Log10K(_, _)
Log10K(N, k) == IF RCmp(RPow(I(10), k+1), RPow(I(N), 10)) <= 0 THEN Log10K(N, k+1) ELSE k
RECURSIVE Bisect(_, _, _, _)
Bisect(P, e, a, b) ==       \* smallest v in a..b with P <= (v+1/2)^e, known to hold at b
    IF a = b THEN a
    ELSE LET c == (a + b) \div 2 IN
         IF RCmp(P, RPow(Q(2*c+1, 2), e)) <= 0 THEN Bisect(P, e, a, c) ELSE Bisect(P, e, c + 1, b)
RootAt(N, k, e, v) == Bisect(RPow(I(N), k), e, v, N)      \* smallest v' >= v with N^k <= (v'+1/2)^e
RECURSIVE Log10Seq(_, _, _, _)
Log10Seq(N, K, k, v) ==
    IF k > K-1 THEN {}
    ELSE LET w == IF K = 1 THEN 1 ELSE RootAt(N, k, K-1, v) IN {w} \cup Log10Seq(N, K, k+1, w)
\* an exact power of ten may lose one point to the rounding of log10
Log10Sets(N) ==
    LET K == Log10K(N, 0) IN
    IF K = 0 THEN {{}} ELSE
    LET s == Log10Seq(N, K, 0, 1) IN
    IF RPow(I(10), K) = RPow(I(N), 10) THEN {s, Log10Seq(N, K-1, 0, 1)} ELSE {s}

KwSets(kw, N) ==            \* the possible sets of requested factors, before limits
    CASE kw = "all"    -> {1..N}
      [] kw = "octave" -> {{IPow(2, k) : k \in 0..ILog(2, N)}}
      [] kw = "decade" -> {{c * IPow(10, k) : k \in 0..ILog(10, N), c \in {1, 2, 4}}}
      [] kw = "log10"  -> Log10Sets(N)

\* N: length; max: rational upper limit on m; even: only even factors
Ok(m, N, max, even) == m > 0 /\ m < N /\ RCmp(I(m), max) <= 0 /\ (even => m % 2 = 0)

InRange(r, N) == RCmp(r, Q(1, 4)) > 0 /\ RCmp(r, I(N + 1)) < 0
ListRnds(list, rate, N) ==
    { Rnd(RMul(list[i], rate)) : i \in { j \in 1..Len(list) : Len(list[j]) = 2 /\ InRange(RMul(list[j], rate), N) } }

\* does the sequence ms of averaging factors answer the request?
Sorted(ms) == \A i \in 1..(Len(ms)-1) : ms[i] < ms[i+1]
Selected(ms, req, rate, N, max, even) ==
    LET S == { ms[i] : i \in 1..Len(ms) }
        F(T) == { m \in T : Ok(m, N, max, even) }
    IN  /\ Sorted(ms)
        /\ IF req.kw = "list"
           THEN LET R == ListRnds(req.list, rate, N) IN
                /\ S \subseteq F(UNION R)
                /\ \A r \in R : IF Cardinality(r) = 1 THEN F(r) \subseteq S
                                ELSE F(r) = r => r \cap S # {}
           ELSE \E T \in KwSets(req.kw, N) : S = F(T)

\* the same, after dropping factors for which keep(m) is FALSE (estimates from n <= 1 terms)
SelectedKept(ms, req, rate, N, max, even, keep(_)) ==
    LET S == { ms[i] : i \in 1..Len(ms) }
        F(T) == { m \in T : Ok(m, N, max, even) /\ keep(m) }
    IN  /\ Sorted(ms)
        /\ IF req.kw = "list"
           THEN LET R == ListRnds(req.list, rate, N) IN
                /\ S \subseteq F(UNION R)
                /\ \A r \in R : IF Cardinality(r) = 1 THEN F(r) \subseteq S
                                ELSE F(r) = r => r \cap S # {}
           ELSE \E T \in KwSets(req.kw, N) : S = F(T)
=============================================================================
