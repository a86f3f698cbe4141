------------------------------ MODULE MC_Mask -------------------------------
(* A clock's observation interval grows; the masks stay positive, never     *)
(* fall by more than the rounding of the recommendation, and the stricter   *)
(* PRTC-B does not exceed PRTC-A (by more than the rounding).                                             *)
EXTENDS Mask, TLC, IOUtils
L == atoi(IOEnv.MC_L)
VARIABLES tau, n
\* every breakpoint, its neighbourhood, and a geometric grid
Stops == << Q(1, 10), R1, Q(11, 10), I(20), I(54), Q(109, 2), I(55), I(99), I(100), I(101), I(272), I(273), I(274), I(499), I(500), I(501), I(999), I(1000), I(1001), I(9000),
           I(29999), I(30000), I(30001), I(299999), I(300000), I(300001), I(400000), I(400001), I(1000000) >>
\* L intermediate points between neighbours
Init == n = 0 /\ tau = Stops[1]
Next == n < (Len(Stops) - 1) * (L + 1) /\ n' = n + 1
        /\ LET i == (n + 1) \div (L + 1)  r == (n + 1) % (L + 1) IN
           tau' = IF r = 0 THEN Stops[i + 1] ELSE RAdd(Stops[i + 1], RMul(Q(r, L + 1), RSub(Stops[i + 2], Stops[i + 1])))
Spec == Init /\ [][Next]_<<tau, n>>
Pos == \A f \in Names : RSgn(Value(f, tau)) > 0
Strict == RCmp(Value("prtcB_tdev", tau), Value("prtcA_tdev", tau)) <= 0 /\ RCmp(Value("prtcB_mtie", tau), RMul(Q(1001, 1000), Value("prtcA_mtie", tau))) <= 0
          /\ RCmp(Value("eprtc_mtie", tau), Value("prtcB_mtie", tau)) <= 0 /\ Value("prc_tdev", tau) = Value("prtcA_tdev", tau)
          /\ RCmp(Value("prtcA_mtie", tau), RMul(Q(1001, 1000), Value("prc_mtie", tau))) <= 0
\* drops only where the recommendation's rounded numbers meet (under 0.1 %), jumps only under 1 %
Mono == [][\A f \in Names : LET a == Value(f, tau)  b == Value(f, tau')  m == Masks[f] IN
             /\ RCmp(b, RMul(a, Q(999, 1000))) >= 0
             /\ (Piece(m, tau, 1) = Piece(m, tau', 1) => RCmp(b, a) >= 0)]_<<tau, n>>
Pieces == \A f \in Names : LET m == Masks[f] IN
    /\ \A i \in 1..(Len(m) - 1) : Len(m[i].hi) = 2 /\ (i + 1 < Len(m) => RCmp(m[i].hi, m[i+1].hi) < 0)
    /\ \A i \in 1..(Len(m) - 1) : LET a == At(m[i], m[i].hi)  b == At(m[i+1], m[i].hi) IN RCmp(RAbs(RSub(a, b)), RMul(Q(1, 100), a)) <= 0
=============================================================================
