-------------------------------- MODULE MC_Ci -------------------------------
(* Internal consistency of the transcribed formulas and tables, over every  *)
(* noise type, difference order and flag, and noise identification over     *)
(* small families of series.                                                *)
EXTENDS Ci, TLC, FiniteSets, IOUtils
Which == IOEnv.MC_WHICH
L == atoi(IOEnv.MC_L)
Within(a, b, r) == RCmp(RAbs(RSub(a, b)), RMul(r, RAbs(b))) <= 0
AD == { p \in (-4..2) \X (1..3) : Covered(p[1], p[2]) }
VARIABLE q
\* "edf": every combination with small m and N; "tab": large m, where tables and sums overlap
Ns(d, m, mod) == LET f == (IF mod THEN m ELSE 1) + m * d IN {f, f + 1, f + 2*m, f + 7*m + 3}
Edf == [p : AD, m : 1..L, o : BOOLEAN, f : BOOLEAN, n : 1..4]
Small(c) == LET d == c.p[2]  fl == (IF c.f THEN c.m ELSE 1) + c.m * d IN
            (CASE c.n = 1 -> fl [] c.n = 2 -> fl + 1 [] c.n = 3 -> fl + 2*c.m [] c.n = 4 -> fl + 7*c.m + 3)
Init == CASE Which = "edf" -> q \in Edf
          [] Which = "tab" -> q \in [p : AD, r : {12, 25, 60}]
          [] Which = "nid" -> q \in [c : {-1, 0, 1, 3}, e : {0, 1}, p : {2, 3, 7}, k : 0..L, dt : {"phase", "freq"}, m : {1, 2}, dmin : 0..1]
          [] Which = "chi" -> q \in [nu : {R1, I(2), Q(7, 2), I(30)}, c : {Q(1, 2), Q(68, 100), Q(95, 100)}]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
\* the degrees of freedom lie between 1 and the number of terms, wherever the sum is used
EdfRange == Which = "edf" =>
    LET N == Small(q)  a == q.p[1]  d == q.p[2]
        g == Greenhall(a, d, q.m, N, q.o, q.f)
        h == Shape(d, q.m, N, q.o, q.f)
    IN  h.M >= 1 /\ (Case(a, d, q.m, N, q.o, q.f) # "4.1") = g.ok
        /\ (g.ok => RCmp(g.v, Q(2, 3)) >= 0 /\ RCmp(g.v, RMul(I(h.M), Q(1001, 1000))) <= 0)
\* the tables approximate the sums they replace
TabClose == Which = "tab" =>
    LET a == q.p[1]  d == q.p[2]  S == 26  M == q.r * S  J == (d + 1) * S
        r == I(q.r)
    IN  /\ Within(RDiv(R1, Linear(Tab(T1, a, d), r)), EdfSum(J, M, I(S), R1, a, d), Q(3, 100))
        /\ a <= 0 => Within(RDiv(R1, Linear(Tab(T2, a, d), r)), EdfSum(J, M, I(S), Inf, a, d), Q(4, 100))
\* the identified exponent does not depend on a polynomial trend; rho is exact
Series(c, e, p, k, n) == [i \in 1..n |-> I(((i*i*p + 3*i + k) % 11) - 5 + (IF e = 1 THEN (i % 5) * (i % 7) ELSE 0))]
NidInv == Which = "nid" =>
    LET n == 31 * q.m
        x == Series(q.c, q.e, q.p, q.k, n)
        z == [i \in 1..n |-> RAdd(x[i], RAdd(RMul(I(q.c), I(i)), RMul(Q(q.c, 3), IF q.dt = "phase" THEN I(i*i) ELSE R0)))]
        A == NoiseId(x, q.m, q.dt, q.dmin, 2)
        B == NoiseId(z, q.m, q.dt, q.dmin, 2)
    IN  A.ok /\ B.ok /\ Cardinality(A.s) \in 1..2 /\ A.s = B.s
        /\ \A c \in A.s : c[1] \in q.dmin..2
\* the interval at a level contains the interval at a lower level
ChiMono == Which = "chi" => RCmp(ChiP(q.nu, q.nu), Q(1, 2)) > 0 /\ RCmp(ChiP(RDiv(q.nu, I(2)), q.nu), ChiP(q.nu, q.nu)) < 0
=============================================================================
