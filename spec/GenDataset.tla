----------------------------- MODULE GenDataset -----------------------------
(* Generates histories of up to three datasets and two plots.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.GEN_D)
Mode == IOEnv.GEN_MODE           \* life, write, plot or curves
VARIABLES hist, nd, np, done, turn
Stats == {"adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "ttotdev", "mtotdev",
          "htotdev", "theo1", "mtie", "tierms", "gradev"}
Bad == {"gcodev", "calc_adev_phase", "mtie_phase_fast", "np", "tau_generator", "nosuch", "", "dev", "ADEV", "frequency2phase"}
Data == {"d1", "d2", "d3", "d4", "d5", "d6", "d7"}
Rates == {"", "1.0", "2.0", "0.1", "49.0", "7.3", "3", "1e6", "0"}
Types == {"", "phase", "freq", "bad"}
Taus == {"", "all", "octave", "decade", "l1", "l2", "l3", "far"}
Given == [data : Data, rate : Rates, data_type : Types, taus : Taus]
Good == [data : Data, rate : Rates \ {"0"}, data_type : Types \ {"bad"}, taus : Taus \ {"far"}]
Init == hist = <<>> /\ nd = 0 /\ np = 0 /\ done = FALSE /\ turn \in 0..9
Put(s) == hist' = Append(hist, s) /\ done' = FALSE /\ turn' \in 0..9
New  == Put([act |-> "new", id |-> nd + 1, bare |-> turn % 2 = 0, given |-> RandomElement(Good)]) /\ nd' = nd + 1 /\ np' = np
Set  == \E i \in {RandomElement(1..nd)} :
          Put([act |-> "set", id |-> i, given |-> IF Mode = "life" /\ turn % 2 = 0 THEN RandomElement(Given) ELSE RandomElement(Good)])
          /\ UNCHANGED <<nd, np>>
Comp == \E i \in {RandomElement(1..nd)}, f \in {IF Mode = "life" /\ turn % 3 = 0 THEN RandomElement(Bad) ELSE RandomElement(Stats)} :
          Put([act |-> "compute", id |-> i, name |-> f]) /\ UNCHANGED <<nd, np>>
(* the same input again but for one field, and the same statistic again *)
Inputs == { j \in 1..Len(hist) : hist[j].act = "set" \/ (hist[j].act = "new" /\ ~hist[j].bare) }
Comps == { j \in 1..Len(hist) : hist[j].act = "compute" }
LastOf(S) == CHOOSE j \in S : \A k \in S : k <= j
Tweak == \E j \in {LastOf(Inputs)}, g \in {RandomElement(Good)}, fld \in {RandomElement({"data", "rate", "data_type", "taus"})} :
          Put([act |-> "set", id |-> hist[j].id, given |-> [hist[j].given EXCEPT ![fld] = g[fld]]]) /\ UNCHANGED <<nd, np>>
Again == \E j \in {LastOf(Comps)}, k \in {RandomElement(1..nd)}, same \in {RandomElement(BOOLEAN)} :
          Put([hist[j] EXCEPT !.id = IF same THEN @ ELSE k]) /\ UNCHANGED <<nd, np>>
Write == \E i \in {RandomElement(1..nd)}, file \in {RandomElement(1..2)}, dg \in {RandomElement({0, 1, 2, 3, 5, 8, 12, 16})},
            hp \in {RandomElement(0..4)} :
          Put([act |-> "write", id |-> i, file |-> file, digits |-> dg, hp |-> hp]) /\ UNCHANGED <<nd, np>>
NewPlot == Put([act |-> "newplot", id |-> np + 1]) /\ np' = np + 1 /\ nd' = nd
Plot == \E i \in {RandomElement(1..nd)}, p \in {RandomElement(1..np)}, b \in BOOLEAN, g \in BOOLEAN, k \in {RandomElement(0..4)} :
          Put([act |-> "plot", id |-> i, ax |-> p, bars |-> b, grid |-> g, kw |-> k]) /\ UNCHANGED <<nd, np>>
Save == \E p \in {RandomElement(1..np)}, f \in {RandomElement(1..2)} :
          Put([act |-> "save", ax |-> p, file |-> f]) /\ UNCHANGED <<nd, np>>
Emit == PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED <<hist, nd, np, turn>>
Next == IF done THEN FALSE
        ELSE IF Len(hist) >= D THEN Emit
        ELSE IF nd = 0 \/ (nd < 3 /\ turn = 9) THEN New
        ELSE IF Mode \in {"plot", "curves"} /\ (np = 0 \/ (np < 2 /\ turn = 8 /\ Mode = "plot")) THEN NewPlot
        ELSE IF Mode = "curves" /\ turn >= 4 THEN (IF turn = 8 THEN Save ELSE Plot)
        ELSE IF turn = 0 /\ Inputs # {} THEN Tweak
        ELSE IF turn <= 2 THEN Set
        ELSE IF turn <= 4 /\ Comps # {} THEN Again
        ELSE IF Mode = "write" /\ turn >= 6 THEN Write
        ELSE IF Mode = "plot" /\ turn = 8 /\ np > 0 THEN Save
        ELSE IF Mode = "plot" /\ turn >= 6 /\ np > 0 THEN Plot
        ELSE Comp
Spec == Init /\ [][Next]_<<hist, nd, np, done, turn>>
=============================================================================
