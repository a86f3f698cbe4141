------------------------------- MODULE MC_Aux -------------------------------
(***************************************************************************)
(* Exhaustive checks of the remaining definitions on small instances:      *)
(*  taus : the selection relation answers every request in exactly one way *)
(*         and obeys the limits (every length, keyword, limit, list)       *)
(*  conv : phase <-> frequency round trips                                 *)
(*  cross: covariance / three-cornered-hat identities on pairs of series   *)
(*  gap  : gap-resistant sums against the gap-free ones                    *)
(* A behaviour grows two series (or a request list) symbol by symbol.      *)
(***************************************************************************)
EXTENDS LibOps, IOUtils
L == atoi(IOEnv.MC_L)
Which == IOEnv.MC_WHICH
VARIABLES xs, ys
vars == <<xs, ys>>
A == {-1, 0, 2}

(* xs, ys: integer sequences of equal length; in "taus" xs = <<N>> and ys the request in quarters of a tau0 *)
Init == IF Which = "taus" THEN xs \in { <<n>> : n \in 2..L } /\ ys = <<>> ELSE xs = <<>> /\ ys = <<>>
Next == IF Which = "taus"
        THEN /\ Len(ys) < 2 /\ xs' = xs
             /\ \E q \in { -4, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 4*xs[1]-4, 4*xs[1]-3, 4*xs[1]-1, 4*xs[1] } : ys' = Append(ys, q)
        ELSE /\ Len(xs) < L
             /\ \E a \in A : xs' = Append(xs, a)
             /\ \E b \in (IF Which = "conv" THEN {0} ELSE IF Which = "gap" THEN {0, 1} ELSE {-1, 3}) : ys' = Append(ys, b)
Spec == Init /\ [][Next]_vars
N == Len(xs)
X == TLCEval([i \in 1..N |-> I(xs[i])])
Y == TLCEval([i \in 1..N |-> I(ys[i])])

(***************************** selection ***********************************)
\* sorted sequence of a set of integers
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SetSeq(S \ {m})
TausInv ==
    LET n == xs[1]
        rate == I(4)                       \* list entries are quarters of the sample spacing
        R(q, lim, ev) == { s \in SUBSET (1..n) : Selected(SetSeq(s), q, rate, n, lim, ev) }
        req == [kw |-> "list", list |-> [i \in 1..Len(ys) |-> Q(ys[i], 16)]]
        ties == \E i \in 1..Len(ys) : ys[i] % 4 = 2
    IN  /\ (n <= 9 => \A ev \in BOOLEAN : \A lim \in {I(n), Q(n, 3), I(2)} :
             /\ LET s == R(req, lim, ev) IN
                /\ s # {} /\ (~ties => Cardinality(s) = 1)
                /\ \A t \in s : \A m \in t : m > 0 /\ m < n /\ RCmp(I(m), lim) <= 0 /\ (ev => m % 2 = 0)
                                       /\ \E i \in 1..Len(ys) : 2*ys[i] >= 8*m - 4 /\ 2*ys[i] <= 8*m + 4
             /\ ys = <<>> => \A kw \in {"all", "octave", "decade", "log10"} :
                  LET s == R([kw |-> kw], lim, ev) IN
                  /\ Cardinality(s) = 1
                  /\ \A t \in s : t \subseteq UNION R([kw |-> "all"], lim, ev))
        \* keyword sets: octave and decade are dense enough, log10 has no more than 10 points per decade
        /\ ys = <<>> => /\ \A T \in KwSets("octave", n) : \A m \in T : 2*m <= n => 2*m \in T
                        /\ \A T \in KwSets("log10", n) : Cardinality(T) <= Log10K(n, 0) /\ \A m \in T : m <= n
                        /\ \A T \in KwSets("log10", n) : n > 3 => 1 \in T
        \* not sorted or duplicated answers are never accepted
        /\ ~Selected(<<2, 1>>, req, rate, n, I(n), FALSE) /\ ~Selected(<<1, 1>>, req, rate, n, I(n), FALSE)

(**************************** conversions **********************************)
ConvInv ==
    N >= 2 =>
    /\ FreqToPhase(X, I(4))[1] = R0 /\ FreqToPhase(X, I(4))[N+1] = R0
    /\ PhaseToFreq(FreqToPhase(X, I(4)), I(4)) =
         LET mu == RDiv(RSumR(LAMBDA i : X[i], 1, N), I(N)) IN [i \in 1..N |-> RSub(X[i], mu)]
    /\ LET y == PhaseToFreq(X, Q(1, 3))  p == FreqToPhase(y, Q(1, 3))
           sl == RDiv(RSub(X[N], X[1]), I(N-1))
       IN  p = [i \in 1..N |-> RSub(RSub(X[i], X[1]), RMul(sl, I(i-1)))]
    /\ \* duality in the scaled representation used for recorded calls
       LET p == PhaseOf("freq", X)  u == PhaseUnit("freq", X, R1, I(4))  q == FreqToPhase(X, I(4)) IN
       Len(p) = Len(q) /\ \A i \in 1..Len(p) : RMul(u, p[i]) = q[i]

(****************************** cross moments ******************************)
CrossInv ==
    LET Z == [i \in 1..N |-> RSub(RMul(I(2), Y[i]), RMul(X[i], X[i]))]
        Sub(a, b) == [i \in 1..N |-> RSub(a[i], b[i])]
        Add(a, b) == [i \in 1..N |-> RAdd(a[i], b[i])]
        V(a, m) == OadevRaw(a, m)
    IN \A m \in 1..N : OadevN(N, m) > 0 =>
        /\ GcoRaw(X, Y, m) = GcoRaw(Y, X, m) /\ GcoRaw(X, X, m) = V(X, m)
        /\ RMul(I(4), GcoRaw(X, Y, m)) = RSub(V(Add(X, Y), m), V(Sub(X, Y), m))
        \* hat of the three differences = own variance plus covariances, zero when clocks are independent
        /\ RDiv(RSub(RAdd(V(Sub(X, Y), m), V(Sub(Z, X), m)), V(Sub(Y, Z), m)), I(2))
             = RAdd(RSub(RSub(V(X, m), GcoRaw(X, Y, m)), GcoRaw(X, Z, m)), GcoRaw(Y, Z, m))
        /\ RCmp(RSq(GcoRaw(X, Y, m)), RMul(V(X, m), V(Y, m))) <= 0

(********************************* gaps ************************************)
GapInv ==
    LET gap == { i \in 1..N : ys[i] = 1 }
        T(m, g) == SelectSeq([i \in 1..Max2(N - 2*m, 0) |-> i], LAMBDA i : i \notin g /\ (i+m) \notin g /\ (i+2*m) \notin g)
        S(m, g) == RSumR(LAMBDA k : RSq(D2(X, m, T(m, g)[k])), 1, Len(T(m, g)))
    IN \A m \in 1..N :
        /\ Len(T(m, {})) = OadevN(N, m)
        /\ OadevN(N, m) > 0 => S(m, {}) = RMul(I(2*OadevN(N, m)), OadevRaw(X, m))
        /\ RCmp(S(m, gap), S(m, {})) <= 0
        /\ \* removing one more point removes exactly the terms that use it (at most three)
           \A i \in 1..N : Len(T(m, gap)) - Len(T(m, gap \cup {i})) \in 0..3

Inv == CASE Which = "taus" -> TausInv [] Which = "conv" -> ConvInv [] Which = "cross" -> CrossInv [] Which = "gap" -> GapInv
=============================================================================
