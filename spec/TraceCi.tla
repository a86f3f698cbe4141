------------------------------ MODULE TraceCi -------------------------------
(* Validation of recorded calls of the functions in ci.py and of gradev's errors. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CiOps
VARIABLES l, nbad
Log == JsonDeserialize(IOEnv.TRACE)
Verdict(e) ==
    CASE e.op = "edf"     -> EdfVerdict(e)
      [] e.op = "part"    -> PartVerdict(e)
      [] e.op = "ci"      -> CiVerdict(e)
      [] e.op = "pipe"    -> PipeVerdict(e)
      [] e.op = "graderr" -> GradErrVerdict(e)
      [] e.op = "nid"     -> NidVerdict(e)
      [] e.op = "acf"     -> AcfVerdict(e)
      [] e.op = "detrend" -> DetrendVerdict(e)
      [] e.op = "ratio"   -> RatioVerdict(e)
      [] e.op = "theory"  -> TheoryVerdict(e)
      [] e.op = "refuse"  -> RefuseVerdict(e)
Init == l = 1 /\ nbad = 0
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN
           IF v = {} THEN nbad' = nbad ELSE nbad' = nbad + 1 /\ PrintT(<<"BAD", l, v>>)
Spec == Init /\ [][Next]_<<l, nbad>>
Post == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
