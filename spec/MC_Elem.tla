------------------------------ MODULE MC_Elem -------------------------------
(* Known identities of the functions in Elem, and a table of their values   *)
(* (setup.sh compares the table with and without the Java overrides).       *)
EXTENDS Elem, TLC
VARIABLE done
Xs == { Q(1, 1000), Q(1, 7), Q(1, 2), Q(2, 3), R1, Q(3, 2), I(2), Q(22, 7), I(10), Q(12345, 17), I(100000) }
E25 == RDiv(R1, RPow(I(10), 25))
Close(a, b) == RCmp(RAbs(RSub(a, b)), RMul(E25, RAdd(R1, RAbs(b)))) <= 0
ASSUME \A x \in Xs : Close(RExp(RLn(x)), x)
ASSUME \A x, y \in Xs : Close(RLn(RMul(x, y)), RAdd(RLn(x), RLn(y)))
ASSUME \A x \in Xs : Close(RMul(RSqrt(x), RSqrt(x)), x)
ASSUME \A x \in Xs : Close(RAdd(RSq(RSin(x)), RSq(RCos(x))), R1) /\ Close(RSin(RMul(I(2), x)), RMul(I(2), RMul(RSin(x), RCos(x))))
ASSUME Close(RSin(RDiv(Pi, I(6))), Q(1, 2)) /\ Close(RCos(Pi), I(-1))
ASSUME \A x \in Xs : Close(LnGamma(RAdd(x, R1)), RAdd(LnGamma(x), RLn(x)))
ASSUME Close(LnGamma(Q(1, 2)), RDiv(RLn(Pi), I(2))) /\ Close(LnGamma(I(5)), RLn(I(24))) /\ Close(LnGamma(I(40)), RAdd(LnGamma(I(39)), RLn(I(39))))
\* chi-squared with 2 and 4 degrees of freedom, and the recurrence in a
Ps == { Q(1, 7), Q(1, 2), I(2), Q(22, 7), I(10), I(45) }
ASSUME \A x \in Ps : Close(GammaP(R1, x), RSub(R1, RExp(RNeg(x))))
ASSUME \A x \in Ps : Close(GammaP(I(2), x), RSub(R1, RMul(RExp(RNeg(x)), RAdd(R1, x))))
ASSUME \A x \in Ps, a \in {Q(1, 2), Q(7, 3), I(30)} :
    Close(GammaP(RAdd(a, R1), x), RSub(GammaP(a, x), RExp(RSub(RSub(TMul(a, RLn(x)), x), LnGamma(RAdd(a, R1))))))
Rel(a, b) == RCmp(RAbs(RSub(a, b)), RMul(E25, RAbs(b))) <= 0
Big == RPow(I(10), 30)
ASSUME \A x \in Xs \cup {Big, RDiv(R1, Big)} : \A y \in {Q(1, 2), Q(-7, 3), I(3), Q(1, 1000)} :
    Rel(SMul(SPow(x, y), SPow(x, RNeg(y))), R1) /\ Rel(SMul(SPow(x, y), x), SPow(x, RAdd(y, R1))) /\ Rel(SPow(SPow(x, y), SDiv(R1, y)), x)
\* erf(1/sqrt 2) = 0.682689492137085897...
ASSUME RCmp(RAbs(RSub(OneSigma, RDiv(RAdd(RMul(I(682689492), I(1000000000)), I(137085897)), RPow(I(10), 18)))), RDiv(R1, RPow(I(10), 17))) <= 0
Few == { Q(1, 1000), Q(2, 3), Q(3, 2), Q(12345, 17) }
Out == <<[x \in Few |-> RLn(x)], [x \in Few |-> RExp(IF RCmp(x, I(9)) > 0 THEN I(-40) ELSE x)], [x \in Few |-> RSqrt(x)], [x \in Few |-> <<RSin(x), RCos(RNeg(x))>>],
         TMul(Q(-1, 3), Q(1, 7)), TDiv(Q(-2, 3), Q(7, 11)),
         RSig(Q(-22, 7)), RSig(RDiv(R1, RPow(I(7), 80))), RSig(RPow(I(7), 80)), SPow(Q(1, 1000), Q(17, 3))>>
Init == done = FALSE /\ PrintT(<<"OUT", Out>>)
Next == UNCHANGED done
=============================================================================
