----------------------------- MODULE TraceNoise -----------------------------
(* Recorded calls of the noise generators, and histories of Noise objects   *)
(* (every step one transition).                                             *)
EXTENDS NoiseOps, TLC, Json, IOUtils
VARIABLES l, i, objs
Log == JsonDeserialize(IOEnv.TRACE)
Single(e) ==
    CASE e.op = "colour" -> ColourVerdict(e)
      [] e.op = "pink"   -> PinkVerdict(e)
      [] e.op = "period" -> PeriodVerdict(e)
      [] e.op = "welch"  -> WelchVerdict(e)
      [] e.op = "tk"     -> TkVerdict(e)
      [] e.op = "refuse" -> IF e.out.ok THEN {"accepted"} ELSE IF e.want # "any" /\ e.out.exc # e.want THEN Exc(e.out) ELSE {}
NoObj == [j \in 1..4 |-> <<>>]
Init == l = 1 /\ i = 1 /\ objs = NoObj /\ TLCSet(1, 0)
NextEvent == l' = l + 1 /\ i' = 1 /\ objs' = NoObj /\ TLCSet(1, l)
Next == /\ l <= Len(Log)
        /\ IF Log[l].op # "kasdin"
           THEN LET v == Single(Log[l]) IN (IF v = {} THEN TRUE ELSE PrintT(<<"BAD", l, v>>)) /\ NextEvent
           ELSE IF i > Len(Log[l].steps) THEN NextEvent
           ELSE LET s == Log[l].steps[i]  os == TLCEval(KStep(objs, s))  v == KVerdict(os, s) IN
                IF v = {} THEN l' = l /\ i' = i + 1 /\ objs' = os
                ELSE PrintT(<<"BAD", l, v \cup {"step " \o ToString(i)}>>) /\ NextEvent
Spec == Init /\ [][Next]_<<l, i, objs>>
Post == PrintT(<<"DONE", TLCGet(1), Len(Log)>>)
=============================================================================
