----------------------------- MODULE TracePurity ----------------------------
(* Recorded call histories of the library; e.fun[k] is the answer of a fresh *)
(* process to key k.                                                         *)
EXTENDS Purity, Approx, Json, IOUtils
VARIABLES l, i, st
Log == JsonDeserialize(IOEnv.TRACE)

\* numbers of equal columns: relative 1e-9 or 1e-10 of the column's largest value
ColNear(a, b) ==
    Len(a) = Len(b) /\
    LET M == MaxAbs(SelectSeq(b, LAMBDA v : IsNum(v)))
        tol == RMul(RDiv(Eps9, I(10)), M)
    IN \A j \in 1..Len(a) : IF IsNum(a[j]) /\ IsNum(b[j]) THEN Near(a[j], b[j], Eps9, tol) ELSE a[j] = b[j]
Same(o, f) == o.ok = f.ok /\ IF ~o.ok THEN o.exc = f.exc
              ELSE Len(o.cols) = Len(f.cols) /\ \A c \in 1..Len(o.cols) : ColNear(o.cols[c], f.cols[c])

Init == l = 1 /\ i = 1 /\ st = (IF Len(Log) > 0 THEN [heap |-> Log[1].heap, res |-> <<>>, amb |-> Log[1].amb] ELSE <<>>) /\ TLCSet(1, 0)
NextHist == l' = l + 1 /\ i' = 1 /\ TLCSet(1, l)
            /\ st' = IF l < Len(Log) THEN [heap |-> Log[l+1].heap, res |-> <<>>, amb |-> Log[l+1].amb] ELSE <<>>
Next == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           IF i > Len(e.steps) THEN NextHist
           ELSE IF e.steps[i].act = "write" THEN l' = l /\ i' = i + 1 /\ st' = Written(st, [heap |-> e.steps[i].heap, res |-> e.steps[i].res])
           ELSE IF e.steps[i].act = "par"
           THEN LET s == e.steps[i]
                    v == Overlap(st, [heap |-> s.heap, res |-> s.res, amb |-> s.amb, outs |-> s.outs], Same, [j \in 1..Len(s.keys) |-> e.fun[s.keys[j]]])
                IN  IF v = {} THEN l' = l /\ i' = i + 1 /\ st' = st
                    ELSE PrintT(<<"BAD", l, v \cup {s.what}>>) /\ NextHist
           ELSE LET s == e.steps[i]
                    v == Verdict(st, [heap |-> s.heap, res |-> s.res, amb |-> s.amb, draws |-> s.draws, out |-> s.out], Same, e.fun[s.key])
                IN  IF v = {} THEN l' = l /\ i' = i + 1 /\ st' = After(st, s)
                    ELSE PrintT(<<"BAD", l, v \cup {s.what}>>) /\ NextHist
Spec == Init /\ [][Next]_<<l, i, st>>
Post == PrintT(<<"DONE", TLCGet(1), Len(Log)>>)
=============================================================================
