------------------------------ MODULE Dataset -------------------------------
(***************************************************************************)
(* The Dataset life cycle: a table of live datasets, each holding the      *)
(* input given last and the result of its last successful compute, and the *)
(* files and axes the results are written to.                              *)
(*   given: a record with some of data, rate, data_type, taus              *)
(*   Fun(inp, name): what the statistic itself answers, [ok, ...]          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

StatNames == {"adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "ttotdev", "mtotdev",
              "htotdev", "theo1", "mtie", "tierms", "gradev"}
\* statistics of two series: not computable on the data of a Dataset
PairNames == {"gcodev"}
OtherNames == {"calc_adev_phase", "calc_hdev_phase", "mtie_phase_fast", "np", "tau_generator", "remove_small_ns",
               "frequency2phase", "psd2allan", "trim_data", "mtie_rolling_window", "three_cornered_hat_phase", "__version__"}
Class(name) == IF name \in StatNames THEN "stat" ELSE IF name \in PairNames THEN "pair"
               ELSE IF name \in OtherNames THEN "other" ELSE "unknown"

Given(g, f, d) == IF f \in DOMAIN g THEN g[f] ELSE d
Inp(g) == [data |-> Given(g, "data", "none"), rate |-> Given(g, "rate", "1.0"),
           data_type |-> Given(g, "data_type", "phase"), taus |-> Given(g, "taus", "none")]
NoOut == [none |-> TRUE]
NewDs(g) == [inp |-> Inp(g), out |-> NoOut]
SetInput(d, g) == [d EXCEPT !.inp = Inp(g)]

\* what compute(name) does to dataset d: [ok, exc, ds]; exc "any" = some exception
Compute(d, name, Fun(_, _)) ==
    CASE Class(name) = "unknown" -> [ok |-> FALSE, exc |-> "AttributeError", ds |-> d]
      [] Class(name) = "other"   -> [ok |-> FALSE, exc |-> "RuntimeError", ds |-> d]
      [] Class(name) = "pair"    -> [ok |-> FALSE, exc |-> "any", ds |-> d]
      [] OTHER -> LET f == Fun(d.inp, name) IN
                  IF f.ok THEN [ok |-> TRUE, exc |-> "", ds |-> [d EXCEPT !.out = [none |-> FALSE, name |-> name, f |-> f]]]
                  ELSE [ok |-> FALSE, exc |-> f.exc, ds |-> d]

(* axes: the curves drawn so far, labels and grid *)
NewAxes == [curves |-> <<>>, ylabel |-> "", xlabel |-> "", grid |-> FALSE]
Draw(a, out, errorbars, grid, kw) ==
    [curves |-> Append(a.curves, [out |-> out, bars |-> errorbars, kw |-> kw]),
     xlabel |-> "Tau", ylabel |-> out.name, grid |-> grid]
\* saving a plot writes a picture of its own axes, and changes no axes
Saved(files, f, a) == [files EXCEPT ![f] = a]
=============================================================================
