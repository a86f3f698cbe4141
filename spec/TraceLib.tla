------------------------------ MODULE TraceLib ------------------------------
(* Validation of recorded calls of stateless functions: one action per call. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, LibOps
VARIABLES l, nbad
Log == JsonDeserialize(IOEnv.TRACE)

Verdict(e) ==
    CASE e.op = "stat"   -> StatVerdict(e)
      [] e.op = "rows"   -> RowsVerdict(e)
      [] e.op = "taugen" -> TauGenVerdict(e)
      [] e.op = "taured" -> TauRedVerdict(e)
      [] e.op = "refuse" -> RefuseVerdict(e)
      [] e.op = "conv"   -> ConvVerdict(e)
      [] e.op = "kern"   -> KernVerdict(e)
      [] e.op = "fast"   -> FastVerdict(e)
      [] e.op = "gradev" -> GradevVerdict(e)
      [] e.op = "gcodev" -> GcodevVerdict(e)
      [] e.op = "hat"    -> HatVerdict(e)
      [] e.op = "rel"    -> RelVerdict(e)
      [] e.op = "coin"   -> CoinVerdict(e)
      [] e.op = "tdevrel" -> TdevRelVerdict(e)
      [] e.op = "mono"   -> MonoVerdict(e)

Init == l = 1 /\ nbad = 0
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN
           IF v = {} THEN nbad' = nbad ELSE nbad' = nbad + 1 /\ PrintT(<<"BAD", l, v>>)
Spec == Init /\ [][Next]_<<l, nbad>>
Post == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
