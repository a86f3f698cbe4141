------------------------------ MODULE GenNoise ------------------------------
(* Generates histories of up to three Noise objects.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.GEN_D)
VARIABLES hist, objs, done
Nrs == {1, 2, 3, 7, 8, 16, 21}
Qds == {"1", "1e-20", "0.3", "4"}
Bs  == {"0", "-1", "-2", "-3", "-4", "-2.5", "0.5"}
Subs == SUBSET {"nr", "qd", "b"}
Init == hist = <<>> /\ objs = 0 /\ done = FALSE
Args == [nr : Nrs, qd : Qds, b : Bs]
Pick == {"new", "set", "set", "gen", "theory"}
New == objs < 3 /\ (Len(hist) = 0 \/ Len(hist) % 4 = 1)
       /\ \E a \in Args, s \in Subs : hist' = Append(hist, [act |-> "new", id |-> objs + 1, args |-> a, given |-> s])
       /\ objs' = objs + 1 /\ done' = FALSE
Set == objs > 0 /\ objs' = objs /\ done' = FALSE
       /\ \E j \in 1..objs, a \in Args, s \in Subs : hist' = Append(hist, [act |-> "set", id |-> j, args |-> a, given |-> s])
Gen == objs > 0 /\ objs' = objs /\ done' = FALSE
       /\ \E j \in 1..objs, k \in 0..99 : hist' = Append(hist, [act |-> "gen", id |-> j, seed |-> k])
Theory == objs > 0 /\ objs' = objs /\ done' = FALSE
       /\ \E j \in 1..objs, f \in {"phase_psd_from_qd", "frequency_psd_from_qd", "c_avar", "c_mvar", "adev_from_qd", "mdev_from_qd", "pdev_from_qd", "adev", "mdev"},
             t0 \in {"1", "0.1", "16", "86400"}, m \in {1, 2, 10, 1000} :
             hist' = Append(hist, [act |-> "theory", id |-> j, fn |-> f, tau0 |-> t0, m |-> m])
Emit == PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED <<hist, objs>>
Next == IF done THEN FALSE ELSE IF Len(hist) >= D THEN Emit
        ELSE IF Len(hist) % 4 = 1 /\ objs < 3 THEN New \/ Gen
        ELSE New \/ Gen \/ (Len(hist) % 3 # 1 /\ Set) \/ (Len(hist) % 3 = 1 /\ Theory)
Spec == Init /\ [][Next]_<<hist, objs, done>>
=============================================================================
