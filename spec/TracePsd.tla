------------------------------ MODULE TracePsd ------------------------------
(* Validation of recorded calls of the spectrum <-> deviation conversions. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, PsdOps
VARIABLES l, nbad
Log == JsonDeserialize(IOEnv.TRACE)
Verdict(e) ==
    CASE e.op = "p2a"    -> P2AVerdict(e)
      [] e.op = "p2alin" -> P2ALinVerdict(e)
      [] e.op = "a2p"    -> A2PVerdict(e)
      [] e.op = "a2pscale" -> A2PScaleVerdict(e)
      [] e.op = "p2d"    -> P2DVerdict(e)
      [] e.op = "refuse" -> IF e.out.ok THEN {"accepted"} ELSE IF e.want # "any" /\ e.out.exc # e.want THEN Exc(e.out) ELSE {}
Init == l = 1 /\ nbad = 0
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN
           IF v = {} THEN nbad' = nbad ELSE nbad' = nbad + 1 /\ PrintT(<<"BAD", l, v>>)
Spec == Init /\ [][Next]_<<l, nbad>>
Post == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
