---------------------------- MODULE GenRealtime -----------------------------
(* Generates interleaved histories of up to three real-time objects; each    *)
(* finished behaviour is printed as JSON and replayed into the library.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.GEN_D)
Auto == IOEnv.GEN_AUTO = "1"
VARIABLES hist, objs, done
Kinds == {"oadev", "ohdev", "tdev"}
Cfgs == IF Auto THEN {"auto4", "auto5", "auto3", "auto10", "auto1", "auto4list"} ELSE {"f1", "f21", "f3", "f1245", "fdef", "fshared", "fdup"}
T0s == {"1", "0.1", "4", "86400"}
Init == hist = <<>> /\ objs = 0 /\ done = FALSE
New  == objs < 3 /\ (Len(hist) = 0 \/ Len(hist) % 5 = 2)
        /\ \E k \in Kinds, c \in Cfgs, t \in T0s :
             hist' = Append(hist, [act |-> "new", id |-> objs + 1, kind |-> k, cfg |-> c, tau0 |-> t])
        /\ objs' = objs + 1 /\ done' = FALSE
Feed == objs > 0 /\ objs' = objs /\ done' = FALSE
        /\ \E j \in 1..objs, a \in {"phase", "phase", "freq"}, v \in {-7, -1, 0, 1, 3, 20} :
             hist' = Append(hist, [act |-> a, id |-> j, v |-> v])
Emit == PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED <<hist, objs>>
Next == IF done THEN FALSE ELSE IF Len(hist) >= D THEN Emit ELSE New \/ Feed
Spec == Init /\ [][Next]_<<hist, objs, done>>
=============================================================================
