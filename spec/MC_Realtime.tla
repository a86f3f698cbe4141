----------------------------- MODULE MC_Realtime ----------------------------
(* Every stream of MC_L points over a small alphabet, by phase or by        *)
(* frequency, into every kind of object (given factors or automatic): at    *)
(* every moment the object reports the batch statistics.                    *)
EXTENDS Realtime, IOUtils
L == atoi(IOEnv.MC_L)
Kinds == {"oadev", "ohdev", "tdev"}
VARIABLES o, n
vars == <<o, n>>
Init == /\ n = 0
        /\ \E k \in Kinds : \E t \in {R1, Q(1, 4)} :
             o \in { NewObj(k, <<2, 1, 2>>, t, FALSE, 4), NewObj(k, <<1>>, t, TRUE, 4), NewObj(k, <<7, 3>>, t, TRUE, 7) }
Next == /\ n < L /\ n' = n + 1
        /\ \E v \in {-1, 0, 2} : o' = AddPhase(o, I(v)) \/ (n # 1 /\ v # 0 /\ o' = AddFreq(o, I(v)))
Spec == Init /\ [][Next]_vars
Equal == \A k \in 1..Len(o.afs) : RawDev(o, k) = BatchDev(o, k)
\* automatic factors are exactly the grid points with 2m+1 points available (and 1)
GridInv == o.auto =>
    /\ o.afs[1] = 1 /\ \A k \in 1..Len(o.afs) : o.afs[k] = Grid(k-1, o.ppd)
    /\ \A k \in 2..Len(o.afs) : 2*o.afs[k] + 1 <= Len(o.x)
    /\ 2*Grid(Len(o.afs), o.ppd) + 1 > Len(o.x)
Shape == Len(o.afs) = Len(o.in) /\ Len(o.afs) = Len(o.sum)
\* the same points at once, or in two parts, by phase or by frequency
Steps(x, t) == [i \in 1..(Len(x) - 1) |-> RDiv(RSub(x[i+1], x[i]), t)]
BulkInv ==
    LET new == NewObj(o.kind, o.afs, o.tau0, o.auto, o.ppd)
        h == Len(o.x) \div 2
    IN  /\ AddPhases(new, o.x) = o
        /\ AddPhases(AddPhases(new, SubSeq(o.x, 1, h)), SubSeq(o.x, h + 1, Len(o.x))) = o
        /\ Len(o.x) > 1 => AddFreqs(AddPhase(new, o.x[1]), Steps(o.x, o.tau0)) = o
        /\ Len(o.x) > 1 /\ o.x[1] = R0 => AddFreqs(new, Steps(o.x, o.tau0)) = o
Inv == BulkInv /\ Equal /\ GridInv /\ Shape
\* factors are never removed or reordered, points never change
Grows == [][/\ SubSeq(o'.afs, 1, Len(o.afs)) = o.afs /\ SubSeq(o'.x, 1, Len(o.x)) = o.x /\ o'.kind = o.kind]_vars
=============================================================================
