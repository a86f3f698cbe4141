----------------------------- MODULE MC_Dataset -----------------------------
(* All histories of two datasets, two plots and a picture file over a small table of inputs, *)
(* names and outcomes.                                                       *)
EXTENDS Dataset, Integers, IOUtils
L == atoi(IOEnv.MC_L)
Names == {"adev", "theo1", "gcodev", "np", "nosuch"}
Givens == { <<>> } \cup {[data |-> "a"], [data |-> "b", rate |-> "2.0"], [data |-> "a", data_type |-> "bad"]}
\* the statistics are uninterpreted: an answer names its input and function
F(inp, name) == IF inp.data = "none" \/ inp.data_type = "bad" THEN [ok |-> FALSE, exc |-> "E"]
                ELSE [ok |-> TRUE, inp |-> inp, name |-> name]
VARIABLES ds, ax, n, last, pic
Init == ds = [i \in 1..2 |-> NewDs(<<>>)] /\ ax = [p \in 1..2 |-> NewAxes] /\ pic = [f \in 1..1 |-> [by |-> 0, of |-> NewAxes]] /\ n = 0 /\ last = [i \in 1..2 |-> NoOut]
Set(i)  == \E g \in Givens : ds' = [ds EXCEPT ![i] = SetInput(@, g)] /\ UNCHANGED <<ax, last, pic>>
Comp(i) == \E nm \in Names : LET r == Compute(ds[i], nm, F) IN
             /\ ds' = [ds EXCEPT ![i] = r.ds] /\ UNCHANGED <<ax, pic>>
             /\ last' = IF r.ok THEN [last EXCEPT ![i] = [inp |-> ds[i].inp, name |-> nm]] ELSE last
Plot(i) == ~ds[i].out.none /\ \E p \in 1..2 : Len(ax[p].curves) < 2 /\ \E b \in BOOLEAN, g \in BOOLEAN :
             ax' = [ax EXCEPT ![p] = Draw(@, ds[i].out, b, g, <<>>)] /\ UNCHANGED <<ds, last, pic>>
Save == \E p \in 1..2 : pic' = Saved(pic, 1, [by |-> p, of |-> ax[p]]) /\ UNCHANGED <<ds, ax, last>>
Next == n < L /\ n' = n + 1 /\ ((\E i \in 1..2 : Set(i) \/ Comp(i) \/ Plot(i)) \/ Save)
Spec == Init /\ [][Next]_<<ds, ax, n, last, pic>>
\* the stored output is that of the last successful compute, on the input of that moment
OutIsLast == \A i \in 1..2 : IF last[i] = NoOut THEN ds[i].out = NoOut
             ELSE ds[i].out = [none |-> FALSE, name |-> last[i].name, f |-> F(last[i].inp, last[i].name)]
Complete == \A i \in 1..2 : DOMAIN ds[i].inp = {"data", "rate", "data_type", "taus"}
\* a step touches at most one dataset, and a step that draws touches none
Frame == [][/\ ds'[1] = ds[1] \/ ds'[2] = ds[2]
            /\ ax' # ax => ds' = ds /\ pic' = pic
            /\ pic' # pic => ds' = ds /\ ax' = ax /\ pic'[1].of = ax[pic'[1].by]
            /\ ax'[1] = ax[1] \/ ax'[2] = ax[2]
            /\ \A p \in 1..2 : SubSeq(ax'[p].curves, 1, Len(ax[p].curves)) = ax[p].curves]_<<ds, ax, n, last, pic>>
\* a picture holds a prefix of what its plot shows now
PicIsPast == pic[1].by # 0 => SubSeq(ax[pic[1].by].curves, 1, Len(pic[1].of.curves)) = pic[1].of.curves
=============================================================================
