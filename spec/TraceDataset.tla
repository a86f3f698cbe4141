---------------------------- MODULE TraceDataset ----------------------------
(* Recorded histories of datasets, result files and plots.                  *)
(* e.part: "life" checks what compute stores and returns; "write" and       *)
(* "plot" take the stored results as observed and check files and axes.     *)
EXTENDS Dataset, Approx, Json, IOUtils
VARIABLES l, i, st
Log == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}

Key(inp, name) == inp.data \o "|" \o inp.rate \o "|" \o inp.data_type \o "|" \o inp.taus \o "|" \o name

ColNear(a, b) ==
    Len(a) = Len(b) /\
    LET M == MaxAbs(SelectSeq(b, LAMBDA v : IsNum(v)))
        tol == RMul(RDiv(Eps9, I(10)), M)
    IN \A j \in 1..Len(a) : IF IsNum(a[j]) /\ IsNum(b[j]) THEN Near(a[j], b[j], Eps9, tol) ELSE a[j] = b[j]
ErrNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : ColNear(a[k], b[k])
SameRes(o, f) == ColNear(o.taus, f.taus) /\ ColNear(o.stat, f.stat) /\ ErrNear(o.err, f.err) /\ ColNear(o.ns, f.ns)
SameOut(b, out) == IF out.none THEN b.none ELSE ~b.none /\ b.name = out.name /\ SameRes(b, out.f)

(*************************** the life cycle ********************************)
Life(e, s, ds) ==       \* [ds, bad]
    LET r == CASE s.act = "new" -> [ok |-> TRUE, ds |-> NewDs(s.given), exc |-> ""]
               [] s.act = "set" -> [ok |-> TRUE, ds |-> SetInput(ds[s.id], s.given), exc |-> ""]
               [] OTHER         -> Compute(ds[s.id], s.name, LAMBDA inp, nm : e.fun[Key(inp, nm)])
        ds2 == [ds EXCEPT ![s.id] = r.ds]
    IN [ds |-> ds2,
        bad |-> Clause(s.out.ok = r.ok, "outcome") \cup
                (IF s.out.ok \/ r.ok THEN {} ELSE Clause(r.exc = "any" \/ s.out.exc = r.exc, "refusal"))
                \cup (IF s.act = "compute" /\ s.out.ok /\ r.ok THEN Clause(SameRes(s.out.ret, r.ds.out.f), "returned") ELSE {})
                \cup Clause(\A k \in 1..Len(s.out.obs) : SameOut(s.out.obs[k], ds2[k].out), "stored")
                \cup Clause(s.out.kept, "earlier-return-changed")]

(*************************** the result file *******************************)
Headers(s) == <<"# Generated by Allantools " \o s.version, "# Input data type: " \o s.dtype, "# Input data rate: " \o s.rate>>
              \o [k \in 1..Len(s.params) |-> "# " \o s.params[k][1] \o ": " \o s.params[k][2]]
Fields(name) == <<"AF", "Tau", "N", "alpha", "min_" \o name, name, "max_" \o name>>
Digits(s) == IF s.digits = 0 THEN 5 ELSE s.digits
\* token t prints number v (known up to slack) with p significant digits
Prints(t, v, slack, p) ==
    IF ~IsNum(v) THEN t.tag = v[1]
    ELSE /\ t.tag = "num" /\ t.ip = 1 /\ t.fp = p - 1 /\ t.hasexp
         /\ t.num = R0 \/ RCmp(RAbs(t.num), RPow(I(10), t.exp)) >= 0
         /\ RCmp(RAbs(RSub(t.num, v)), RAdd(RMul(Q(1, 2), RPow(I(10), t.exp - t.fp)), slack)) <= 0
Whole(t) == t.tag = "num" /\ t.fp = 0 /\ ~t.hasexp /\ ~t.point
RowOk(t, o, k, rate, p) ==
    Len(t) = 7 /\
    LET tau == o.taus[k]  d == o.stat[k]
        elo == o.err[1][k]  ehi == o.err[Len(o.err)][k]
        two == Len(o.err) = 2
        lo == IF ~IsNum(d) \/ ~IsNum(elo) THEN <<"nan">> ELSE RSub(d, IF two THEN elo ELSE RMul(Q(1, 2), elo))
        hi == IF ~IsNum(d) \/ ~IsNum(ehi) THEN <<"nan">> ELSE RAdd(d, IF two THEN ehi ELSE RMul(Q(1, 2), ehi))
        eps == RMul(Q(1, 1000000), Eps9)
        slack == IF IsNum(d) /\ IsNum(elo) /\ IsNum(ehi) THEN RMul(eps, RAdd(RAbs(d), RAdd(RAbs(elo), RAbs(ehi)))) ELSE R0
    IN  /\ Whole(t[1]) /\ RCmp(RAbs(RSub(t[1].num, RMul(tau, rate))), RAdd(Q(1, 2), Eps9)) <= 0
        /\ Prints(t[2], tau, R0, p)
        /\ Whole(t[3]) /\ IsNum(o.ns[k]) /\ t[3].num = RFloor(o.ns[k])
        /\ Prints(t[6], d, R0, p)
        /\ Prints(t[5], lo, slack, p) /\ Prints(t[7], hi, slack, p)
WriteBad(s, o) ==
    IF ~s.out.ok THEN {"exc:" \o s.out.exc}
    ELSE LET h == Headers(s)  H == Len(h)  K == Len(o.taus) IN
         Clause(s.out.head = h, "header")
         \cup Clause(s.out.fields = Fields(o.name), "field-line")
         \cup Clause(Len(s.out.rows) = K, "line-count")
         \cup Clause(\A k \in 1..Len(s.out.rows) : k <= K => RowOk(s.out.rows[k], o, k, s.ratev, Digits(s)), "line")
         \cup Clause(s.out.whole, "file-replaced")
         \cup Clause(s.out.unchanged, "dataset-changed")

(********************************* axes ************************************)
CurveOk(c, w) ==        \* observed curve c, specified curve w
    /\ ColNear(c.x, w.out.taus) /\ ColNear(c.y, w.out.stat)
    /\ c.bars = w.bars
    /\ c.bars => LET lo == w.out.err[1]  hi == w.out.err[Len(w.out.err)]
                     num(v, k) == IsNum(v[k]) /\ IsNum(w.out.stat[k])
                     sc(k, v) == RMul(Eps12, RAdd(RAbs(w.out.stat[k]), RAbs(v[k])))
                 IN  /\ Len(c.lo) = Len(w.out.taus) /\ Len(c.hi) = Len(c.lo)
                     /\ \A k \in 1..Len(c.lo) : num(lo, k) => NearN(c.lo[k], RSub(w.out.stat[k], lo[k]), R0, sc(k, lo))
                     /\ \A k \in 1..Len(c.hi) : num(hi, k) => NearN(c.hi[k], RAdd(w.out.stat[k], hi[k]), R0, sc(k, hi))
    /\ \A f \in DOMAIN w.kw : f \in DOMAIN c.kw /\ c.kw[f] = w.kw[f]
AxBad(b, a) ==
    Clause(b.xscale = "log" /\ b.yscale = "log", "log-axes")
    \cup Clause(Len(b.curves) = Len(a.curves), "curve-count")
    \cup Clause(\A k \in 1..Len(b.curves) : k <= Len(a.curves) => CurveOk(b.curves[k], a.curves[k]), "curve")
    \cup (IF a.curves = <<>> THEN {}
          ELSE Clause(b.xlabel = a.xlabel /\ b.ylabel = a.ylabel, "label")
               \cup Clause(b.major = a.grid /\ (a.grid \/ ~b.minor), "grid"))

(******************************* the machine *******************************)
Start == [ds |-> [k \in 1..9 |-> NewDs(<<>>)], ax |-> [k \in 1..9 |-> NewAxes]]
Step(e, s, q) ==
    CASE s.act \in {"new", "set", "compute"} ->
           IF e.part = "life" THEN LET r == Life(e, s, q.ds) IN [st |-> [q EXCEPT !.ds = r.ds], bad |-> r.bad]
           ELSE [st |-> q, bad |-> {}]
      [] s.act = "write" -> [st |-> q, bad |-> WriteBad(s, s.res)]
      [] s.act = "newplot" -> [st |-> [q EXCEPT !.ax[s.id] = NewAxes],
                               bad |-> IF s.out.ok THEN {} ELSE {"exc:" \o s.out.exc}]
      \* the file shows what the plot shows (own: digests of the pictures of all plots, before and after)
      [] s.act = "save" -> [st |-> q, bad |-> IF ~s.out.ok THEN {"exc:" \o s.out.exc}
                                              ELSE Clause(s.out.file = s.out.after[s.ax], "picture") \cup Clause(s.out.before = s.out.after, "plot-changed")]
      [] s.act = "plot" ->
           LET a2 == [q.ax EXCEPT ![s.ax] = Draw(@, s.res, s.bars, s.grid, s.kw)] IN
           [st |-> [q EXCEPT !.ax = a2],
            bad |-> IF ~s.out.ok THEN {"exc:" \o s.out.exc}
                    ELSE UNION { AxBad(s.out.axes[k], a2[k]) : k \in 1..Len(s.out.axes) } \cup Clause(s.out.unchanged, "dataset-changed")]
Init == l = 1 /\ i = 1 /\ st = Start /\ TLCSet(1, 0)
NextHist == l' = l + 1 /\ i' = 1 /\ st' = Start /\ TLCSet(1, l)
Next == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           IF i > Len(e.steps) THEN NextHist
           ELSE LET r == TLCEval(Step(e, e.steps[i], st)) IN
                IF r.bad = {} THEN l' = l /\ i' = i + 1 /\ st' = r.st
                ELSE PrintT(<<"BAD", l, r.bad \cup {e.steps[i].act}>>) /\ NextHist
Spec == Init /\ [][Next]_<<l, i, st>>
Post == PrintT(<<"DONE", TLCGet(1), Len(Log)>>)
=============================================================================
