----------------------------- MODULE TraceMask ------------------------------
(* Recorded calls of the mask functions. *)
EXTENDS Mask, Approx, TLC, Json, IOUtils
VARIABLES l, nbad
Log == JsonDeserialize(IOEnv.TRACE)
Verdict(e) == IF ~e.out.ok THEN {"exc:" \o e.out.exc}
              ELSE IF NearN(e.out.v, Value(e.fn, e.tau), Eps12, R0) THEN {} ELSE {"mask"}
Init == l = 1 /\ nbad = 0
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN
           IF v = {} THEN nbad' = nbad ELSE nbad' = nbad + 1 /\ PrintT(<<"BAD", l, v>>)
Spec == Init /\ [][Next]_<<l, nbad>>
Post == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
