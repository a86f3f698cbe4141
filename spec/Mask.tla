-------------------------------- MODULE Mask --------------------------------
(* Clock masks of ITU-T G.811, G.8272 and G.8272.1 in nanoseconds:          *)
(* sequences of pieces up to .. (inclusive or not) of a + b tau.            *)
EXTENDS Rat
P(hi, incl, a, b) == [hi |-> hi, incl |-> incl, a |-> a, b |-> b]
End(a, b) == P(<<"inf">>, TRUE, a, b)
Mtie1 == Q(275, 1000)                            \* 0.275 ns per second
Masks == [
  prc_tdev   |-> << P(I(100), FALSE, I(3), R0), P(I(1000), FALSE, R0, Q(3, 100)), End(I(30), R0) >>,
  prc_mtie   |-> << P(I(1000), FALSE, I(25), Mtie1), End(I(290), Q(1, 100)) >>,
  eprtc_tdev |-> << P(I(30000), FALSE, R1, R0), P(I(300000), FALSE, R0, RDiv(Q(333333, 100000), I(100000))), End(I(10), R0) >>,
  eprtc_mtie |-> << P(R1, TRUE, I(4), R0), P(I(100), TRUE, Q(389, 100), Q(11114, 100000)), P(I(400000), TRUE, I(15), Q(375, 10000000)), End(I(30), R0) >>,
  prtcA_tdev |-> << P(I(100), FALSE, I(3), R0), P(I(1000), FALSE, R0, Q(3, 100)), End(I(30), R0) >>,
  prtcB_tdev |-> << P(I(100), FALSE, R1, R0), P(I(500), FALSE, R0, Q(1, 100)), End(I(5), R0) >>,
  prtcA_mtie |-> << P(I(273), FALSE, I(25), Mtie1), End(I(100), R0) >>,
  prtcB_mtie |-> << P(Q(109, 2), FALSE, I(25), Mtie1), End(I(40), R0) >> ]
Names == DOMAIN Masks
In(p, tau) == Len(p.hi) = 1 \/ RCmp(tau, p.hi) < 0 \/ (p.incl /\ tau = p.hi)
RECURSIVE Piece(_, _, _)
Piece(m, tau, i) == IF In(m[i], tau) THEN i ELSE Piece(m, tau, i + 1)
At(p, tau) == RAdd(p.a, RMul(p.b, tau))
Value(name, tau) == LET m == Masks[name] IN RDiv(At(m[Piece(m, tau, 1)], tau), I(1000000000))
=============================================================================
