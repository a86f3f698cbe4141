---------------------------- MODULE TraceRealtime ---------------------------
(* Recorded histories of several live real-time objects: every step is one  *)
(* transition of Realtime, every observation after it has to agree.         *)
EXTENDS Realtime, Approx, Json, IOUtils
VARIABLES l, i, objs
Log == JsonDeserialize(IOEnv.TRACE)

Clause(ok, name) == IF ok THEN {} ELSE {name}
DevOk(d, V, tol) == SqrtNearN(d, V, Eps9, tol)
ObsVerdict(o, b) ==
    IF ~b.ok THEN {"exc:" \o b.exc}
    ELSE LET K == Len(o.afs) IN
    IF Len(b.taus) # K THEN {"factors"}
    ELSE IF Len(b.devs) # K \/ (b.hasm /\ Len(b.mdev) # K) THEN {"columns"}
    ELSE LET M == RMul(Eps11, MaxAbs(o.x)) IN
         Clause(\A k \in 1..K : NearN(b.taus[k], Tau(o, k), Eps12, R0), "tau")
         \cup Clause(\A k \in 1..K : IF Terms(o, k) = 0 THEN b.devs[k] = R0
                ELSE DevOk(b.devs[k], Dev2(o, k), IF o.kind = "tdev" THEN M ELSE RDiv(M, Tau(o, k))), "dev")
         \cup Clause(b.hasm => \A k \in 1..K : IF Terms(o, k) = 0 THEN b.mdev[k] = R0
                ELSE DevOk(b.mdev[k], Mdev2(o, k), RDiv(RMul(I(2), M), Tau(o, k))), "mdev")

Step(s) ==
    CASE s.act = "new"   -> [objs EXCEPT ![s.id] = NewObj(s.kind, s.afs, s.tau0, s.auto, s.ppd)]
      [] s.act = "phase" -> [objs EXCEPT ![s.id] = AddPhase(@, s.v)]
      [] s.act = "freq"  -> [objs EXCEPT ![s.id] = AddFreq(@, s.v)]
      [] s.act = "phases" -> [objs EXCEPT ![s.id] = AddPhases(@, s.v)]
      [] s.act = "freqs"  -> [objs EXCEPT ![s.id] = AddFreqs(@, s.v)]
\* which objects are looked at after the step: the one touched and those listed
Verdict(os, s) == UNION { ObsVerdict(os[b.id], b) : b \in { s.out[j] : j \in 1..Len(s.out) } }
NoObj == [j \in 1..9 |-> <<>>]
Init == l = 1 /\ i = 1 /\ objs = NoObj /\ TLCSet(1, 0)
NextHist == l' = l + 1 /\ i' = 1 /\ objs' = NoObj /\ TLCSet(1, l)
Next == /\ l <= Len(Log)
        /\ IF i > Len(Log[l].steps) THEN NextHist
           ELSE LET s == Log[l].steps[i]  os == TLCEval(Step(s))  v == Verdict(os, s) IN
                IF v = {} THEN l' = l /\ i' = i + 1 /\ objs' = os
                ELSE PrintT(<<"BAD", l, v \cup {"step " \o ToString(i)}>>) /\ NextHist
Spec == Init /\ [][Next]_<<l, i, objs>>
Post == PrintT(<<"DONE", TLCGet(1), Len(Log)>>)
=============================================================================
